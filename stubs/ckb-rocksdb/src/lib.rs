//! Signatures only. Never run.
use std::{marker::PhantomData, ops::Deref, path::Path};
#[derive(Clone, Debug, PartialEq, Eq)] pub struct Error(String);
impl Error { pub fn into_string(self) -> String { unimplemented!() } }
impl std::fmt::Display for Error { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() } }
impl std::error::Error for Error {}
#[derive(Debug)] pub struct DB(());
#[derive(Debug)] pub struct ColumnFamily(());
pub struct ColumnFamilyDescriptor(());
impl ColumnFamilyDescriptor { pub fn new<S: Into<String>>(_: S, _: Options) -> Self { unimplemented!() } }
#[derive(Clone, Default)] pub struct Options(());
impl Options {
    pub fn create_if_missing(&mut self, _: bool) { unimplemented!() }
    pub fn create_missing_column_families(&mut self, _: bool) { unimplemented!() }
    pub fn set_max_open_files(&mut self, _: i32) { unimplemented!() }
    pub fn enable_statistics(&mut self) { unimplemented!() }
}
pub struct FullOptions { pub db_opts: Options, pub cf_descriptors: Vec<ColumnFamilyDescriptor> }
impl FullOptions {
    pub fn load_from_file<P: AsRef<Path>>(_: P, _: Option<usize>, _: bool) -> Result<Self, Error> { unimplemented!() }
    pub fn complete_column_families(&mut self, _: &[&str], _: bool) -> Result<(), Error> { unimplemented!() }
}
#[derive(Default)] pub struct WriteOptions(());
impl WriteOptions { pub fn new() -> Self { unimplemented!() } pub fn set_sync(&mut self, _: bool) { unimplemented!() } pub fn disable_wal(&mut self, _: bool) { unimplemented!() } }
#[derive(Default)] pub struct ReadOptions(());
#[derive(Default)] pub struct WriteBatch(());
impl WriteBatch {
    pub fn len(&self) -> usize { unimplemented!() }
    pub fn is_empty(&self) -> bool { unimplemented!() }
    pub fn clear(&mut self) -> Result<(), Error> { unimplemented!() }
    pub fn put_cf<K: AsRef<[u8]>, V: AsRef<[u8]>>(&mut self, _: &ColumnFamily, _: K, _: V) -> Result<(), Error> { unimplemented!() }
    pub fn put<K: AsRef<[u8]>, V: AsRef<[u8]>>(&mut self, _: K, _: V) -> Result<(), Error> { unimplemented!() }
    pub fn delete_cf<K: AsRef<[u8]>>(&mut self, _: &ColumnFamily, _: K) -> Result<(), Error> { unimplemented!() }
    pub fn delete<K: AsRef<[u8]>>(&mut self, _: K) -> Result<(), Error> { unimplemented!() }
}
pub struct DBVector(());
impl Deref for DBVector { type Target = [u8]; fn deref(&self) -> &[u8] { unimplemented!() } }
impl AsRef<[u8]> for DBVector { fn as_ref(&self) -> &[u8] { unimplemented!() } }
pub struct DBPinnableSlice<'a>(PhantomData<&'a ()>);
impl<'a> Deref for DBPinnableSlice<'a> { type Target = [u8]; fn deref(&self) -> &[u8] { unimplemented!() } }
impl<'a> AsRef<[u8]> for DBPinnableSlice<'a> { fn as_ref(&self) -> &[u8] { unimplemented!() } }
pub struct DBIterator<'a>(PhantomData<&'a ()>);
impl<'a> Iterator for DBIterator<'a> { type Item = (Box<[u8]>, Box<[u8]>); fn next(&mut self) -> Option<Self::Item> { unimplemented!() } }
pub enum Direction { Forward, Reverse }
pub enum IteratorMode<'a> { Start, End, From(&'a [u8], Direction) }
pub mod ops {
    use super::*;
    pub trait GetCF { fn get_cf<K: AsRef<[u8]>>(&self, cf: &ColumnFamily, key: K) -> Result<Option<DBVector>, Error>; }
    pub trait Get { fn get<K: AsRef<[u8]>>(&self, key: K) -> Result<Option<DBVector>, Error>; }
    pub trait GetPinnedCF { fn get_pinned_cf<K: AsRef<[u8]>>(&self, cf: &ColumnFamily, key: K) -> Result<Option<DBPinnableSlice<'_>>, Error>; }
    pub trait PutCF { fn put_cf<K: AsRef<[u8]>, V: AsRef<[u8]>>(&self, cf: &ColumnFamily, key: K, value: V) -> Result<(), Error>; }
    pub trait Put { fn put<K: AsRef<[u8]>, V: AsRef<[u8]>>(&self, key: K, value: V) -> Result<(), Error>; }
    pub trait DeleteCF { fn delete_cf<K: AsRef<[u8]>>(&self, cf: &ColumnFamily, key: K) -> Result<(), Error>; }
    pub trait Delete { fn delete<K: AsRef<[u8]>>(&self, key: K) -> Result<(), Error>; }
    pub trait GetColumnFamilys { fn cf_handle(&self, name: &str) -> Option<&ColumnFamily>; }
    pub trait IterateCF {
        fn prefix_iterator_cf<'a, P: AsRef<[u8]>>(&'a self, cf: &ColumnFamily, prefix: P) -> Result<DBIterator<'a>, Error>;
        fn iterator_cf<'a>(&'a self, cf: &ColumnFamily, mode: IteratorMode<'_>) -> Result<DBIterator<'a>, Error>;
    }
    pub trait OpenCF: Sized {
        fn open_cf_descriptors<P: AsRef<Path>, I: IntoIterator<Item = ColumnFamilyDescriptor>>(opts: &Options, path: P, cfs: I) -> Result<Self, Error>;
        fn open_cf<P: AsRef<Path>, I: IntoIterator<Item = N>, N: AsRef<str>>(opts: &Options, path: P, cfs: I) -> Result<Self, Error>;
    }
    pub trait WriteOps { fn write(&self, batch: &WriteBatch) -> Result<(), Error>; fn write_opt(&self, batch: &WriteBatch, opts: &WriteOptions) -> Result<(), Error>; }
    pub trait Flush { fn flush(&self) -> Result<(), Error>; }
    impl GetCF for DB { fn get_cf<K: AsRef<[u8]>>(&self, _: &ColumnFamily, _: K) -> Result<Option<DBVector>, Error> { unimplemented!() } }
    impl Get for DB { fn get<K: AsRef<[u8]>>(&self, _: K) -> Result<Option<DBVector>, Error> { unimplemented!() } }
    impl GetPinnedCF for DB { fn get_pinned_cf<K: AsRef<[u8]>>(&self, _: &ColumnFamily, _: K) -> Result<Option<DBPinnableSlice<'_>>, Error> { unimplemented!() } }
    impl PutCF for DB { fn put_cf<K: AsRef<[u8]>, V: AsRef<[u8]>>(&self, _: &ColumnFamily, _: K, _: V) -> Result<(), Error> { unimplemented!() } }
    impl Put for DB { fn put<K: AsRef<[u8]>, V: AsRef<[u8]>>(&self, _: K, _: V) -> Result<(), Error> { unimplemented!() } }
    impl DeleteCF for DB { fn delete_cf<K: AsRef<[u8]>>(&self, _: &ColumnFamily, _: K) -> Result<(), Error> { unimplemented!() } }
    impl Delete for DB { fn delete<K: AsRef<[u8]>>(&self, _: K) -> Result<(), Error> { unimplemented!() } }
    impl GetColumnFamilys for DB { fn cf_handle(&self, _: &str) -> Option<&ColumnFamily> { unimplemented!() } }
    impl IterateCF for DB {
        fn prefix_iterator_cf<'a, P: AsRef<[u8]>>(&'a self, _: &ColumnFamily, _: P) -> Result<DBIterator<'a>, Error> { unimplemented!() }
        fn iterator_cf<'a>(&'a self, _: &ColumnFamily, _: IteratorMode<'_>) -> Result<DBIterator<'a>, Error> { unimplemented!() }
    }
    impl OpenCF for DB {
        fn open_cf_descriptors<P: AsRef<Path>, I: IntoIterator<Item = ColumnFamilyDescriptor>>(_: &Options, _: P, _: I) -> Result<Self, Error> { unimplemented!() }
        fn open_cf<P: AsRef<Path>, I: IntoIterator<Item = N>, N: AsRef<str>>(_: &Options, _: P, _: I) -> Result<Self, Error> { unimplemented!() }
    }
    impl WriteOps for DB { fn write(&self, _: &WriteBatch) -> Result<(), Error> { unimplemented!() } fn write_opt(&self, _: &WriteBatch, _: &WriteOptions) -> Result<(), Error> { unimplemented!() } }
    impl Flush for DB { fn flush(&self) -> Result<(), Error> { unimplemented!() } }
}
