// Copyright (c) 2017 Martijn Rijkeboer <mrr@sru-systems.com>
//
// Licensed under the Apache License, Version 2.0 <LICENSE-APACHE or
// http://www.apache.org/licenses/LICENSE-2.0> or the MIT license
// <LICENSE-MIT or http://opensource.org/licenses/MIT>, at your
// option. This file may not be copied, modified, or distributed
// except according to those terms.

use crate::common;
use crate::config::Config;
use crate::error::Error;
use crate::result::Result;

/// Structure containing settings for the Argon2 algorithm. A combination of
/// the original argon2_context and argon2_instance_t.
#[derive(Debug, PartialEq)]
pub struct Context<'a> {
    /// The config for this context.
    pub config: Config<'a>,

    /// The length of a lane.
    pub lane_length: u32,

    /// The number of memory blocks.
    pub memory_blocks: u32,

    /// The password.
    pub pwd: &'a [u8],

    /// The salt.
    pub salt: &'a [u8],

    /// The length of a segment.
    pub segment_length: u32,
}

impl<'a> Context<'a> {
    /// Attempts to create a new context.
    pub fn new(config: Config<'a>, pwd: &'a [u8], salt: &'a [u8]) -> Result<Context<'a>> {
        if config.lanes < common::MIN_LANES {
            return Err(Error::LanesTooFew);
        } else if config.lanes > common::MAX_LANES {
            return Err(Error::LanesTooMany);
        }

        let lanes = config.lanes;
        if config.mem_cost < common::MIN_MEMORY {
            return Err(Error::MemoryTooLittle);
        } else if config.mem_cost > common::MAX_MEMORY {
            return Err(Error::MemoryTooMuch);
        } else if config.mem_cost < 8 * lanes {
            return Err(Error::MemoryTooLittle);
        }

        if config.time_cost < common::MIN_TIME {
            return Err(Error::TimeTooSmall);
        } else if config.time_cost > common::MAX_TIME {
            return Err(Error::TimeTooLarge);
        }

        let pwd_len = pwd.len();
        if pwd_len < common::MIN_PWD_LENGTH as usize {
            return Err(Error::PwdTooShort);
        } else if pwd_len > common::MAX_PWD_LENGTH as usize {
            return Err(Error::PwdTooLong);
        }

        let salt_len = salt.len();
        if salt_len < common::MIN_SALT_LENGTH as usize {
            return Err(Error::SaltTooShort);
        } else if salt_len > common::MAX_SALT_LENGTH as usize {
            return Err(Error::SaltTooLong);
        }

        let secret_len = config.secret.len();
        if secret_len < common::MIN_SECRET_LENGTH as usize {
            return Err(Error::SecretTooShort);
        } else if secret_len > common::MAX_SECRET_LENGTH as usize {
            return Err(Error::SecretTooLong);
        }

        let ad_len = config.ad.len();
        if ad_len < common::MIN_AD_LENGTH as usize {
            return Err(Error::AdTooShort);
        } else if ad_len > common::MAX_AD_LENGTH as usize {
            return Err(Error::AdTooLong);
        }

        if config.hash_length < common::MIN_HASH_LENGTH {
            return Err(Error::OutputTooShort);
        } else if config.hash_length > common::MAX_HASH_LENGTH {
            return Err(Error::OutputTooLong);
        }

        let mut memory_blocks = config.mem_cost;
        if memory_blocks < 2 * common::SYNC_POINTS * lanes {
            memory_blocks = 2 * common::SYNC_POINTS * lanes;
        }

        let segment_length = memory_blocks / (lanes * common::SYNC_POINTS);
        let memory_blocks = segment_length * (lanes * common::SYNC_POINTS);
        let lane_length = segment_length * common::SYNC_POINTS;

        Ok(Context {
            config,
            lane_length,
            memory_blocks,
            pwd,
            salt,
            segment_length,
        })
    }
}

