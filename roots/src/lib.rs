//! Only makes the compiler load the metadata (and MIR) of the crates under verification.
#![allow(unused_imports)]
#[cfg(feature = "astroport")]
use astroport as _;
#[cfg(feature = "astroport_pcl_common")]
use astroport_pcl_common as _;
#[cfg(feature = "astroport_circular_buffer")]
use astroport_circular_buffer as _;
#[cfg(feature = "astroport_factory")]
use astroport_factory as _;
#[cfg(feature = "astroport_pair")]
use astroport_pair as _;
#[cfg(feature = "astroport_pair_converter")]
use astroport_pair_converter as _;
#[cfg(feature = "astroport_pair_concentrated")]
use astroport_pair_concentrated as _;
#[cfg(feature = "astroport_pair_stable")]
use astroport_pair_stable as _;
#[cfg(feature = "astroport_pair_transmuter")]
use astroport_pair_transmuter as _;
#[cfg(feature = "astroport_pair_xastro")]
use astroport_pair_xastro as _;
#[cfg(feature = "astroport_pair_xyk_sale_tax")]
use astroport_pair_xyk_sale_tax as _;
#[cfg(feature = "astroport_router")]
use astroport_router as _;
#[cfg(feature = "astroport_whitelist")]
use astroport_whitelist as _;
#[cfg(feature = "astro_token_converter")]
use astro_token_converter as _;
#[cfg(feature = "astro_token_converter_neutron")]
use astro_token_converter_neutron as _;
#[cfg(feature = "astroport_fee_granter")]
use astroport_fee_granter as _;
#[cfg(feature = "astroport_native_coin_registry")]
use astroport_native_coin_registry as _;
#[cfg(feature = "astroport_oracle")]
use astroport_oracle as _;
#[cfg(feature = "astroport_tokenfactory_tracker")]
use astroport_tokenfactory_tracker as _;
#[cfg(feature = "astroport_incentives")]
use astroport_incentives as _;
#[cfg(feature = "astroport_maker")]
use astroport_maker as _;
#[cfg(feature = "astroport_staking")]
use astroport_staking as _;
#[cfg(feature = "astroport_vesting")]
use astroport_vesting as _;
#[cfg(feature = "astroport_xastro_token")]
use astroport_xastro_token as _;
