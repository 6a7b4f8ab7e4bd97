//! Configuration, chain specification and private keys.
use clap::builder::{StringValueParser, TypedValueParser};
use common_config_parser::types::spec::{ChainSpec, Genesis, HardforkInput, HardforkName};
use common_config_parser::types::Config;
use common_config_parser::ParseError;
use common_crypto::Secp256k1RecoverablePrivateKey;
use protocol::types::{HardforkInfoInner, Header, Key256Bits, H256, RLP_EMPTY_LIST, RLP_NULL};
use serde::de::DeserializeOwned;
use std::ffi::OsStr;
use std::io::Read;
use std::path::{Path, PathBuf};

pub fn genesis_header(g: &Genesis) -> Header {
    let mut h = Header::default();
    h.transactions_root = RLP_NULL;
    h.signed_txs_hash = RLP_EMPTY_LIST;
    h.timestamp = g.timestamp;
    h.base_fee_per_gas = g.base_fee_per_gas;
    h.chain_id = g.chain_id;
    h
}

/// The flags are a little-endian number in the last eight bytes.
fn flags(names: u64) -> H256 {
    H256::from_low_u64_be(names.swap_bytes())
}

fn union(names: &[HardforkName]) -> u64 {
    let mut r = 0;
    for n in names {
        r |= *n as u64;
    }
    r
}

pub fn all_hardforks() -> u64 {
    use strum::IntoEnumIterator;
    let mut r = 0;
    for n in HardforkName::iter() {
        r |= n as u64;
    }
    r
}

/// No names: all there are.
pub fn hardfork_info(i: HardforkInput) -> HardforkInfoInner {
    let names = if i.hardforks.is_empty() { all_hardforks() } else { union(&i.hardforks) };
    HardforkInfoInner { block_number: i.block_number, flags: flags(names) }
}

pub fn genesis_hardforks(g: &Genesis) -> HardforkInfoInner {
    let names = if g.hardforks.is_empty() { all_hardforks() } else { union(&g.hardforks) };
    HardforkInfoInner { block_number: 0, flags: flags(names) }
}

pub fn rocksdb_path(c: &Config) -> PathBuf {
    let mut p = c.data_path.clone();
    p.push("rocksdb");
    p
}

pub fn txs_wal_path(c: &Config) -> PathBuf {
    let mut p = c.data_path.clone();
    p.push("txs_wal");
    p
}

pub fn consensus_wal_path(c: &Config) -> PathBuf {
    let mut p = c.data_path.clone();
    p.push("consensus_wal");
    p
}

pub fn version_path(c: &Config) -> PathBuf {
    let mut p = c.data_path.clone();
    p.push("axon.ver");
    p
}

pub fn parse_reader<R: Read, T: DeserializeOwned>(r: &mut R) -> Result<T, ParseError> {
    let mut buf = String::new();
    r.read_to_string(&mut buf)?;
    Ok(toml::from_str(&buf)?)
}

pub fn parse_json<R: Read, T: DeserializeOwned>(r: &mut R) -> Result<T, ParseError> {
    let mut buf = Vec::new();
    r.read_to_end(&mut buf)?;
    Ok(serde_json::from_slice(&buf)?)
}

pub fn parse_file<T: DeserializeOwned>(name: impl AsRef<Path>, is_json: bool) -> Result<T, ParseError> {
    let mut f = std::fs::File::open(name)?;
    if is_json {
        parse_json(&mut f)
    } else {
        parse_reader(&mut f)
    }
}

/// Exactly 32 bytes, not fewer, not more.
fn key_of(path: &Path) -> Result<Key256Bits, clap::Error> {
    let bad = |_| clap::Error::raw(clap::error::ErrorKind::InvalidValue, "");
    let mut f = std::fs::File::open(path).map_err(bad)?;
    let mut buffer = Vec::new();
    f.read_to_end(&mut buffer).map_err(bad)?;
    if buffer.len() != 32 {
        return Err(clap::Error::raw(clap::error::ErrorKind::InvalidValue, ""));
    }
    let mut v = [0u8; 32];
    v.copy_from_slice(&buffer);
    Ok(Key256Bits::from(v))
}

fn text(cmd: &clap::Command, arg: Option<&clap::Arg>, value: &OsStr) -> Result<String, clap::Error> {
    StringValueParser::new().parse_ref(cmd, arg, value)
}

pub struct Parser;

pub fn parse_key_text(_: &Parser, cmd: &clap::Command, arg: Option<&clap::Arg>, value: &OsStr) -> Result<Key256Bits, clap::Error> {
    let s = text(cmd, arg, value)?;
    protocol::codec::decode_256bits_key(&s).map_err(|_| clap::Error::raw(clap::error::ErrorKind::InvalidValue, ""))
}

pub fn parse_key_file(_: &Parser, cmd: &clap::Command, arg: Option<&clap::Arg>, value: &OsStr) -> Result<Key256Bits, clap::Error> {
    let s = text(cmd, arg, value)?;
    let p = PathBuf::from(s);
    let bad = |_| clap::Error::raw(clap::error::ErrorKind::InvalidValue, "");
    let mut f = std::fs::File::open(p).map_err(bad)?;
    let mut buffer = Vec::new();
    f.read_to_end(&mut buffer).map_err(bad)?;
    if buffer.len() != 32 {
        return Err(clap::Error::raw(clap::error::ErrorKind::InvalidValue, ""));
    }
    let mut v = [0u8; 32];
    v.copy_from_slice(&buffer);
    Ok(Key256Bits::from(v))
}

pub fn parse_spec(_: &Parser, cmd: &clap::Command, arg: Option<&clap::Arg>, value: &OsStr) -> Result<ChainSpec, clap::Error> {
    let s = text(cmd, arg, value)?;
    let mut f = std::fs::File::open(&PathBuf::from(s)).map_err(|_| clap::Error::raw(clap::error::ErrorKind::InvalidValue, ""))?;
    parse_reader(&mut f).map_err(|_| clap::Error::raw(clap::error::ErrorKind::InvalidValue, ""))
}

/// Files named in the configuration are relative to its directory.
pub fn parse_config(_: &Parser, cmd: &clap::Command, arg: Option<&clap::Arg>, value: &OsStr) -> Result<Config, clap::Error> {
    let bad = || clap::Error::raw(clap::error::ErrorKind::InvalidValue, "");
    let file = PathBuf::from(text(cmd, arg, value)?);
    let dir = match file.parent() {
        Some(d) => d,
        None => return Err(bad()),
    };
    let mut f = std::fs::File::open(&file).map_err(|_| bad())?;
    let mut c: Config = parse_reader(&mut f).map_err(|_| bad())?;
    if let Some(p) = c.rocksdb.options_file.take() {
        c.rocksdb.options_file = Some(dir.join(&p));
    }
    c.net_privkey = key_of(&dir.join(&c.net_privkey_file))?;
    c.bls_privkey = key_of(&dir.join(&c.bls_privkey_file))?;
    Ok(c)
}

pub struct Keys {
    from_cli: Option<Key256Bits>,
    from_file: Option<Key256Bits>,
}

/// Exactly one of the two sources.
pub fn key_data(k: Keys) -> Result<Secp256k1RecoverablePrivateKey, String> {
    let data = match k.from_cli {
        Some(d) => match k.from_file {
            Some(_) => return Err(String::new()),
            None => d,
        },
        None => match k.from_file {
            Some(d) => d,
            None => return Err(String::new()),
        },
    };
    Secp256k1RecoverablePrivateKey::try_from(data.as_ref()).map_err(|e| e.to_string())
}

pub fn parse_json_file<T: DeserializeOwned + 'static + Clone + Send + Sync>(_: &Parser, cmd: &clap::Command, arg: Option<&clap::Arg>, value: &OsStr) -> Result<T, clap::Error> {
    let s = text(cmd, arg, value)?;
    let mut f = std::fs::File::open(&PathBuf::from(s)).map_err(|_| clap::Error::raw(clap::error::ErrorKind::InvalidValue, ""))?;
    parse_json(&mut f).map_err(|_| clap::Error::raw(clap::error::ErrorKind::InvalidValue, ""))
}
