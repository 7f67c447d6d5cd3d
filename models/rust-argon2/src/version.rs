// Copyright (c) 2017 Martijn Rijkeboer <mrr@sru-systems.com>
//
// Licensed under the Apache License, Version 2.0 <LICENSE-APACHE or
// http://www.apache.org/licenses/LICENSE-2.0> or the MIT license
// <LICENSE-MIT or http://opensource.org/licenses/MIT>, at your
// option. This file may not be copied, modified, or distributed
// except according to those terms.

use crate::error::Error;
use crate::result::Result;
use std::fmt;

/// The Argon2 version.
#[derive(Clone, Copy, Debug, Eq, PartialEq, PartialOrd, Ord)]
pub enum Version {
    /// Version 0x10.
    Version10 = 0x10,

    /// Version 0x13 (Recommended).
    Version13 = 0x13,
}

impl Version {
    /// Gets the u32 representation of the version.
    pub fn as_u32(&self) -> u32 {
        *self as u32
    }

    /// Attempts to create a version from a string slice.
    pub fn from_str(str: &str) -> Result<Version> {
        match str {
            "16" => Ok(Version::Version10),
            "19" => Ok(Version::Version13),
            _ => Err(Error::DecodingFail),
        }
    }

    /// Attempts to create a version from an u32.
    pub fn from_u32(val: u32) -> Result<Version> {
        match val {
            0x10 => Ok(Version::Version10),
            0x13 => Ok(Version::Version13),
            _ => Err(Error::IncorrectVersion),
        }
    }
}

impl Default for Version {
    fn default() -> Version {
        Version::Version13
    }
}

impl fmt::Display for Version {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", self.as_u32())
    }
}

