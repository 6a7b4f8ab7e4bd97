//! core/db: the tables of the database.
use protocol::codec::ProtocolCodec;
use protocol::traits::{IntoIteratorByRef, StorageBatchModify, StorageCategory, StorageIterator, StorageSchema};
use protocol::{types::Bytes, ProtocolError, ProtocolErrorKind, ProtocolResult};
use rocksdb::ops::{DeleteCF, GetCF, GetColumnFamilys, IterateCF, OpenCF, PutCF, WriteOps};
use rocksdb::{ColumnFamily, ColumnFamilyDescriptor, DBIterator, FullOptions, Options, WriteBatch, WriteOptions, DB};
use std::{fs, marker::PhantomData, path::Path, sync::Arc};

pub struct RocksAdapter {
    db: Arc<DB>,
}
pub struct RocksIterator<'a, S: StorageSchema> {
    inner: DBIterator<'a>,
    pin_s: PhantomData<S>,
}
pub struct RocksIntoIterator<'a, S: StorageSchema, P: AsRef<[u8]>> {
    db:     Arc<DB>,
    column: &'a ColumnFamily,
    prefix: &'a P,
    pin_s:  PhantomData<S>,
}

pub fn name(c: StorageCategory) -> &'static str {
    match c {
        StorageCategory::Version => "c0",
        StorageCategory::Block => "c1",
        StorageCategory::BlockHeader => "c2",
        StorageCategory::SignedTransaction => "c3",
        StorageCategory::Receipt => "c4",
        StorageCategory::Wal => "c5",
        StorageCategory::HashHeight => "c6",
        StorageCategory::Code => "c7",
        StorageCategory::EvmState => "c8",
        StorageCategory::MetadataState => "c9",
        StorageCategory::CkbLightClientState => "c10",
    }
}

fn bad() -> ProtocolError { ProtocolError::new(ProtocolErrorKind::DB, Box::new(std::fmt::Error)) }
fn failed<T>(_: T) -> ProtocolError { bad() }

pub fn column<S: StorageSchema>(db: &DB) -> Result<&ColumnFamily, ProtocolError> { db.cf_handle(name(S::category())).ok_or_else(bad) }

pub fn insert<S: StorageSchema>(a: &RocksAdapter, key: S::Key, val: S::Value) -> ProtocolResult<()> {
    let c = column::<S>(&a.db)?;
    let key = key.encode()?;
    let val = val.encode()?;
    a.db.put_cf(c, key, val).map_err(failed)?;
    Ok(())
}

pub fn get<S: StorageSchema>(a: &RocksAdapter, key: S::Key) -> ProtocolResult<Option<S::Value>> {
    let c = column::<S>(&a.db)?;
    let key = key.encode()?;
    match a.db.get_cf(c, key).map_err(failed)? {
        Some(b) => Ok(Some(<S::Value as ProtocolCodec>::decode(b)?)),
        None => Ok(None),
    }
}

pub fn remove<S: StorageSchema>(a: &RocksAdapter, key: S::Key) -> ProtocolResult<()> {
    let c = column::<S>(&a.db)?;
    let key = key.encode()?;
    a.db.delete_cf(c, key).map_err(failed)?;
    Ok(())
}

pub fn contains<S: StorageSchema>(a: &RocksAdapter, key: S::Key) -> ProtocolResult<bool> {
    let c = column::<S>(&a.db)?;
    let key = key.encode()?;
    Ok(a.db.get_cf(c, key).map_err(failed)?.is_some())
}

/// All or nothing, and on disk when it returns.
pub fn batch_modify<S: StorageSchema>(a: &RocksAdapter, keys: Vec<S::Key>, vals: Vec<StorageBatchModify<S>>) -> ProtocolResult<()> {
    if keys.len() != vals.len() {
        return Err(bad());
    }
    let c = column::<S>(&a.db)?;
    let mut pairs: Vec<(Bytes, Option<Bytes>)> = Vec::new();
    for (k, v) in keys.into_iter().zip(vals.into_iter()) {
        let k = k.encode()?;
        let v = match v {
            StorageBatchModify::Insert(v) => Some(v.encode()?),
            StorageBatchModify::Remove => None,
        };
        pairs.push((k, v));
    }
    let mut batch = WriteBatch::default();
    for (k, v) in pairs {
        match v {
            Some(v) => batch.put_cf(c, k, v).map_err(failed)?,
            None => batch.delete_cf(c, k).map_err(failed)?,
        }
    }
    let mut o = WriteOptions::default();
    o.set_sync(true);
    a.db.write_opt(&batch, &o).map_err(failed)?;
    Ok(())
}

pub fn prepare_iter<'a, 'b: 'a, S: StorageSchema + 'static, P: AsRef<[u8]> + 'a>(a: &'b RocksAdapter, prefix: &'a P) -> ProtocolResult<RocksIntoIterator<'a, S, P>> {
    let column = column::<S>(&a.db)?;
    Ok(RocksIntoIterator { db: Arc::clone(&a.db), column, prefix, pin_s: PhantomData })
}

pub fn iter<'a, S: StorageSchema, P: AsRef<[u8]>>(i: &'a RocksIntoIterator<'a, S, P>) -> RocksIterator<'a, S> {
    RocksIterator { inner: i.db.prefix_iterator_cf(i.column, i.prefix.as_ref()).unwrap_or_else(|_| panic!()), pin_s: PhantomData }
}

pub fn next<'a, S: StorageSchema>(i: &mut RocksIterator<'a, S>) -> Option<ProtocolResult<(S::Key, S::Value)>> {
    i.inner.next().map(|(k, v)| Ok((<S::Key as ProtocolCodec>::decode(k)?, <S::Value as ProtocolCodec>::decode(v)?)))
}

pub fn inner_db(a: &RocksAdapter) -> Arc<DB> { Arc::clone(&a.db) }

fn open_any<P: AsRef<Path>>(path: P, config: common_config_parser::types::ConfigRocksDB, create: bool) -> ProtocolResult<RocksAdapter> {
    if create && !path.as_ref().is_dir() {
        fs::create_dir_all(&path).map_err(failed)?;
    }
    let names = ["c1", "c2", "c4", "c3", "c5", "c6", "c7", "c8", "c9", "c10", "c0"];
    let (mut o, tables) = match &config.options_file {
        Some(f) => {
            let mut o = FullOptions::load_from_file(f, if config.cache_size == 0 { None } else { Some(config.cache_size) }, false).map_err(failed)?;
            o.complete_column_families(&names, false).map_err(failed)?;
            (o.db_opts, o.cf_descriptors)
        }
        None => (Options::default(), names.into_iter().map(|n| ColumnFamilyDescriptor::new(n, Options::default())).collect::<Vec<_>>()),
    };
    if create {
        o.create_if_missing(true);
    }
    o.create_missing_column_families(true);
    o.set_max_open_files(config.max_open_files);
    Ok(RocksAdapter { db: Arc::new(DB::open_cf_descriptors(&o, path, tables).map_err(failed)?) })
}
pub fn new<P: AsRef<Path>>(path: P, config: common_config_parser::types::ConfigRocksDB) -> ProtocolResult<RocksAdapter> { open_any(path, config, true) }
pub fn open<P: AsRef<Path>>(path: P, config: common_config_parser::types::ConfigRocksDB) -> ProtocolResult<RocksAdapter> { open_any(path, config, false) }
