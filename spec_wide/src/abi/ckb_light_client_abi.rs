//! The ABI of the ckb light client contract.
pub use ckb_light_client_contract::*;
pub mod ckb_light_client_contract {
    #[derive(Clone, ::ethers::contract::EthCall, ::ethers::contract::EthDisplay, Default, Debug, PartialEq, Eq, Hash)]
    #[ethcall(name = "rollback", abi = "rollback(bytes32[])")]
    pub struct RollbackCall {
        pub block_hashes: ::std::vec::Vec<[u8; 32]>,
    }
    #[derive(Clone, ::ethers::contract::EthCall, ::ethers::contract::EthDisplay, Default, Debug, PartialEq, Eq, Hash)]
    #[ethcall(name = "setState", abi = "setState(bool)")]
    pub struct SetStateCall {
        pub allow_read: bool,
    }
    #[derive(Clone, ::ethers::contract::EthCall, ::ethers::contract::EthDisplay)]
    #[ethcall(
        name = "update",
        abi = "update((uint32,uint32,uint64,uint64,uint64,bytes32,bytes32,bytes32,bytes32,bytes32,uint128,bytes,bytes32)[])"
    )]
    pub struct UpdateCall {
        pub headers: ::std::vec::Vec<Header>,
    }
    #[derive(Clone, ::ethers::contract::EthAbiType)]
    pub enum CkbLightClientContractCalls {
        Rollback(RollbackCall),
        SetState(SetStateCall),
        Update(UpdateCall),
    }
    impl ::ethers::core::abi::AbiDecode for CkbLightClientContractCalls {
        fn decode(
            data: impl AsRef<[u8]>,
        ) -> ::core::result::Result<Self, ::ethers::core::abi::AbiError> {
            let data = data.as_ref();
            if let Ok(decoded) = <RollbackCall as ::ethers::core::abi::AbiDecode>::decode(data) {
                return Ok(Self::Rollback(decoded));
            }
            if let Ok(decoded) = <SetStateCall as ::ethers::core::abi::AbiDecode>::decode(data) {
                return Ok(Self::SetState(decoded));
            }
            if let Ok(decoded) = <UpdateCall as ::ethers::core::abi::AbiDecode>::decode(data) {
                return Ok(Self::Update(decoded));
            }
            Err(::ethers::core::abi::Error::InvalidData.into())
        }
    }
    impl ::ethers::core::abi::AbiEncode for CkbLightClientContractCalls {
        fn encode(self) -> Vec<u8> {
            match self {
                Self::Rollback(element) => ::ethers::core::abi::AbiEncode::encode(element),
                Self::SetState(element) => ::ethers::core::abi::AbiEncode::encode(element),
                Self::Update(element) => ::ethers::core::abi::AbiEncode::encode(element),
            }
        }
    }
    impl ::core::fmt::Display for CkbLightClientContractCalls {
        fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result {
            match self {
                Self::Rollback(element) => ::core::fmt::Display::fmt(element, f),
                Self::SetState(element) => ::core::fmt::Display::fmt(element, f),
                Self::Update(element) => ::core::fmt::Display::fmt(element, f),
            }
        }
    }
    impl ::core::convert::From<RollbackCall> for CkbLightClientContractCalls {
        fn from(value: RollbackCall) -> Self {
            Self::Rollback(value)
        }
    }
    impl ::core::convert::From<SetStateCall> for CkbLightClientContractCalls {
        fn from(value: SetStateCall) -> Self {
            Self::SetState(value)
        }
    }
    impl ::core::convert::From<UpdateCall> for CkbLightClientContractCalls {
        fn from(value: UpdateCall) -> Self {
            Self::Update(value)
        }
    }
    #[derive(Clone, ::ethers::contract::EthAbiType, ::ethers::contract::EthAbiCodec, Default, Debug, PartialEq, Eq, Hash)]
    pub struct Header {
        pub version:           u32,
        pub compact_target:    u32,
        pub timestamp:         u64,
        pub number:            u64,
        pub epoch:             u64,
        pub parent_hash:       [u8; 32],
        pub transactions_root: [u8; 32],
        pub proposals_hash:    [u8; 32],
        pub extra_hash:        [u8; 32],
        pub dao:               [u8; 32],
        pub nonce:             u128,
        pub extension:         ::ethers::core::types::Bytes,
        pub block_hash:        [u8; 32],
    }
}
