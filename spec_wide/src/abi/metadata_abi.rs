//! The ABI of the metadata contract.
pub use metadata_contract::*;
pub mod metadata_contract {
    #[derive(Clone, ::ethers::contract::EthCall, ::ethers::contract::EthDisplay, Default, Debug, PartialEq, Eq, Hash)]
    #[ethcall(
        name = "appendMetadata",
        abi = "appendMetadata(((uint64,uint64),uint64,(bytes,bytes,address,uint32,uint32)[],(address,uint64)[],(uint64,uint64,uint64,uint64,uint64,uint64,uint64,uint64,uint64)))"
    )]
    pub struct AppendMetadataCall {
        pub metadata: Metadata,
    }
    #[derive(Clone, ::ethers::contract::EthCall, ::ethers::contract::EthDisplay, Default, Debug, PartialEq, Eq, Hash)]
    #[ethcall(
        name = "setCkbRelatedInfo",
        abi = "setCkbRelatedInfo((bytes32,bytes32,bytes32,bytes32,bytes32,bytes32))"
    )]
    pub struct SetCkbRelatedInfoCall {
        pub info: CkbRelatedInfo,
    }
    #[derive(Clone, ::ethers::contract::EthCall, ::ethers::contract::EthDisplay, Default, Debug, PartialEq, Eq, Hash)]
    #[ethcall(
        name = "updateConsensusConfig",
        abi = "updateConsensusConfig((uint64,uint64,uint64,uint64,uint64,uint64,uint64,uint64,uint64))"
    )]
    pub struct UpdateConsensusConfigCall {
        pub config: ConsensusConfig,
    }
    #[derive(Clone, ::ethers::contract::EthAbiType, Debug, PartialEq, Eq, Hash)]
    pub enum MetadataContractCalls {
        AppendMetadata(AppendMetadataCall),
        SetCkbRelatedInfo(SetCkbRelatedInfoCall),
        UpdateConsensusConfig(UpdateConsensusConfigCall),
    }
    impl ::ethers::core::abi::AbiDecode for MetadataContractCalls {
        fn decode(
            data: impl AsRef<[u8]>,
        ) -> ::core::result::Result<Self, ::ethers::core::abi::AbiError> {
            let data = data.as_ref();
            if let Ok(decoded) =
                <AppendMetadataCall as ::ethers::core::abi::AbiDecode>::decode(data)
            {
                return Ok(Self::AppendMetadata(decoded));
            }
            if let Ok(decoded) =
                <SetCkbRelatedInfoCall as ::ethers::core::abi::AbiDecode>::decode(data)
            {
                return Ok(Self::SetCkbRelatedInfo(decoded));
            }
            if let Ok(decoded) =
                <UpdateConsensusConfigCall as ::ethers::core::abi::AbiDecode>::decode(data)
            {
                return Ok(Self::UpdateConsensusConfig(decoded));
            }
            Err(::ethers::core::abi::Error::InvalidData.into())
        }
    }
    impl ::ethers::core::abi::AbiEncode for MetadataContractCalls {
        fn encode(self) -> Vec<u8> {
            match self {
                Self::AppendMetadata(element) => ::ethers::core::abi::AbiEncode::encode(element),
                Self::SetCkbRelatedInfo(element) => ::ethers::core::abi::AbiEncode::encode(element),
                Self::UpdateConsensusConfig(element) => {
                    ::ethers::core::abi::AbiEncode::encode(element)
                }
            }
        }
    }
    impl ::core::fmt::Display for MetadataContractCalls {
        fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result {
            match self {
                Self::AppendMetadata(element) => ::core::fmt::Display::fmt(element, f),
                Self::SetCkbRelatedInfo(element) => ::core::fmt::Display::fmt(element, f),
                Self::UpdateConsensusConfig(element) => ::core::fmt::Display::fmt(element, f),
            }
        }
    }
    impl ::core::convert::From<AppendMetadataCall> for MetadataContractCalls {
        fn from(value: AppendMetadataCall) -> Self {
            Self::AppendMetadata(value)
        }
    }
    impl ::core::convert::From<SetCkbRelatedInfoCall> for MetadataContractCalls {
        fn from(value: SetCkbRelatedInfoCall) -> Self {
            Self::SetCkbRelatedInfo(value)
        }
    }
    impl ::core::convert::From<UpdateConsensusConfigCall> for MetadataContractCalls {
        fn from(value: UpdateConsensusConfigCall) -> Self {
            Self::UpdateConsensusConfig(value)
        }
    }
    #[derive(Clone, ::ethers::contract::EthAbiType, ::ethers::contract::EthAbiCodec, Default, Debug, PartialEq, Eq, Hash)]
    pub struct CkbRelatedInfo {
        pub metadata_type_id:     [u8; 32],
        pub checkpoint_type_id:   [u8; 32],
        pub xudt_args:            [u8; 32],
        pub stake_smt_type_id:    [u8; 32],
        pub delegate_smt_type_id: [u8; 32],
        pub reward_smt_type_id:   [u8; 32],
    }
    #[derive(Clone, ::ethers::contract::EthAbiType, ::ethers::contract::EthAbiCodec, Default, Debug, PartialEq, Eq, Hash)]
    pub struct ConsensusConfig {
        pub propose_ratio:      u64,
        pub prevote_ratio:      u64,
        pub precommit_ratio:    u64,
        pub brake_ratio:        u64,
        pub tx_num_limit:       u64,
        pub max_tx_size:        u64,
        pub gas_limit:          u64,
        pub interval:           u64,
        pub max_contract_limit: u64,
    }
    #[derive(Clone, ::ethers::contract::EthAbiType, ::ethers::contract::EthAbiCodec, Default, Debug, PartialEq, Eq, Hash)]
    pub struct Metadata {
        pub version:          MetadataVersion,
        pub epoch:            u64,
        pub verifier_list:    ::std::vec::Vec<ValidatorExtend>,
        pub propose_counter:  ::std::vec::Vec<ProposeCount>,
        pub consensus_config: ConsensusConfig,
    }
    #[derive(Clone, ::ethers::contract::EthAbiType, ::ethers::contract::EthAbiCodec, Default, Debug, PartialEq, Eq, Hash)]
    pub struct MetadataVersion {
        pub start: u64,
        pub end:   u64,
    }
    #[derive(Clone, ::ethers::contract::EthAbiType, ::ethers::contract::EthAbiCodec, Default, Debug, PartialEq, Eq, Hash)]
    pub struct ProposeCount {
        pub address: ::ethers::core::types::Address,
        pub count:   u64,
    }
    #[derive(Clone, ::ethers::contract::EthAbiType, ::ethers::contract::EthAbiCodec, Default, Debug, PartialEq, Eq, Hash)]
    pub struct ValidatorExtend {
        pub bls_pub_key:    ::ethers::core::types::Bytes,
        pub pub_key:        ::ethers::core::types::Bytes,
        pub address:        ::ethers::core::types::Address,
        pub propose_weight: u32,
        pub vote_weight:    u32,
    }
}
