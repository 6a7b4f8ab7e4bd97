use common_version::Version;
use std::str::FromStr;
use tiny_keccak::{Hasher, Keccak};

pub fn keccak<B: AsRef<[u8]>>(data: B) -> [u8; 32] {
    let mut k = Keccak::v256();
    k.update(data.as_ref());
    let mut out = [0; 32];
    k.finalize(&mut out);
    out
}

// ---- versions: semver, with the commit as build metadata
pub fn version_from_str(s: &str) -> Result<semver::Version, semver::Error> {
    semver::Version::from_str(s)
}

pub fn version_with(v: &str, id: &str) -> semver::Version {
    let mut v = semver::Version::from_str(v).unwrap();
    v.build = semver::BuildMetadata::new("unknown").unwrap();
    v.build = semver::BuildMetadata::new(id).unwrap();
    v
}

pub fn version_new(v: &str) -> semver::Version {
    let mut v = semver::Version::from_str(v).unwrap();
    v.build = semver::BuildMetadata::new("unknown").unwrap();
    v
}

pub fn commit_id(v: &semver::Version) -> String {
    v.build.to_ascii_lowercase()
}
