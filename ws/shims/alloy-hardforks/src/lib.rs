//! Hard fork schedules with the interface of the `alloy-hardforks` crate.
use alloy_primitives::{uint, U256};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum EthereumHardfork {
    Frontier,
    Homestead,
    Dao,
    Tangerine,
    SpuriousDragon,
    Byzantium,
    Constantinople,
    Petersburg,
    Istanbul,
    MuirGlacier,
    Berlin,
    London,
    ArrowGlacier,
    GrayGlacier,
    Paris,
    Shanghai,
    Cancun,
    Prague,
    Osaka,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub enum ForkCondition {
    Block(u64),
    TTD {
        activation_block_number: u64,
        fork_block: Option<u64>,
        total_difficulty: U256,
    },
    Timestamp(u64),
    #[default]
    Never,
}
impl ForkCondition {
    pub const ZERO_BLOCK: Self = Self::Block(0);
    pub const ZERO_TIMESTAMP: Self = Self::Timestamp(0);
    pub const fn active_at_block(&self, current: u64) -> bool {
        match self {
            Self::Block(b) => current >= *b,
            Self::TTD { activation_block_number, .. } => current >= *activation_block_number,
            _ => false,
        }
    }
    pub const fn active_at_timestamp(&self, t: u64) -> bool {
        match self {
            Self::Timestamp(x) => t >= *x,
            _ => false,
        }
    }
}
use EthereumHardfork::*;
impl EthereumHardfork {
    pub const fn mainnet_activation_block(&self) -> Option<u64> {
        Some(match self {
            Frontier => 0,
            Homestead => 1150000,
            Dao => 1920000,
            Tangerine => 2463000,
            SpuriousDragon => 2675000,
            Byzantium => 4370000,
            Constantinople | Petersburg => 7280000,
            Istanbul => 9069000,
            MuirGlacier => 9200000,
            Berlin => 12244000,
            London => 12965000,
            ArrowGlacier => 13773000,
            GrayGlacier => 15050000,
            Paris => 15537394,
            Shanghai => 17034870,
            Cancun => 19426587,
            Prague => 22431084,
            Osaka => return None,
        })
    }
    pub const fn mainnet_activation_timestamp(&self) -> Option<u64> {
        Some(match self {
            Frontier => 1438226773,
            Homestead => 1457938193,
            Dao => 1468977640,
            Tangerine => 1476753571,
            SpuriousDragon => 1479788144,
            Byzantium => 1508131331,
            Constantinople | Petersburg => 1551340324,
            Istanbul => 1575807909,
            MuirGlacier => 1577953849,
            Berlin => 1618481223,
            London => 1628166822,
            ArrowGlacier => 1639036523,
            GrayGlacier => 1656586444,
            Paris => 1663224162,
            Shanghai => 1681338455,
            Cancun => 1710338135,
            Prague => 1746612311,
            Osaka => return None,
        })
    }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct EthereumChainHardforks {
    forks: Vec<(EthereumHardfork, ForkCondition)>,
}
impl EthereumChainHardforks {
    pub fn new(forks: impl IntoIterator<Item = (EthereumHardfork, ForkCondition)>) -> Self {
        Self {
            forks: forks.into_iter().collect(),
        }
    }
    pub fn mainnet() -> Self {
        let mut forks: Vec<_> = [
            Frontier, Homestead, Dao, Tangerine, SpuriousDragon, Byzantium, Constantinople,
            Petersburg, Istanbul, MuirGlacier, Berlin, London, ArrowGlacier, GrayGlacier,
        ]
        .into_iter()
        .map(|f| (f, ForkCondition::Block(f.mainnet_activation_block().unwrap())))
        .collect();
        forks.push((
            Paris,
            ForkCondition::TTD {
                activation_block_number: 15537394,
                fork_block: None,
                total_difficulty: uint!(58_750_000_000_000_000_000_000_U256),
            },
        ));
        for f in [Shanghai, Cancun, Prague] {
            forks.push((f, ForkCondition::Timestamp(f.mainnet_activation_timestamp().unwrap())));
        }
        Self::new(forks)
    }
    pub fn sepolia() -> Self {
        let mut forks: Vec<_> = [
            Frontier, Homestead, Dao, Tangerine, SpuriousDragon, Byzantium, Constantinople,
            Petersburg, Istanbul, MuirGlacier, Berlin, London,
        ]
        .into_iter()
        .map(|f| (f, ForkCondition::Block(0)))
        .collect();
        forks.push((
            Paris,
            ForkCondition::TTD {
                activation_block_number: 1450409,
                fork_block: Some(1735371),
                total_difficulty: uint!(17_000_000_000_000_000_U256),
            },
        ));
        forks.push((Shanghai, ForkCondition::Timestamp(1677557088)));
        forks.push((Cancun, ForkCondition::Timestamp(1706655072)));
        forks.push((Prague, ForkCondition::Timestamp(1741159776)));
        Self::new(forks)
    }
}
pub trait EthereumHardforks {
    fn ethereum_fork_activation(&self, fork: EthereumHardfork) -> ForkCondition;
    fn is_ethereum_fork_active_at_timestamp(&self, fork: EthereumHardfork, t: u64) -> bool {
        self.ethereum_fork_activation(fork).active_at_timestamp(t)
    }
    fn is_ethereum_fork_active_at_block(&self, fork: EthereumHardfork, b: u64) -> bool {
        self.ethereum_fork_activation(fork).active_at_block(b)
    }
    fn is_homestead_active_at_block(&self, b: u64) -> bool {
        self.is_ethereum_fork_active_at_block(Homestead, b)
    }
    fn is_byzantium_active_at_block(&self, b: u64) -> bool {
        self.is_ethereum_fork_active_at_block(Byzantium, b)
    }
    fn is_london_active_at_block(&self, b: u64) -> bool {
        self.is_ethereum_fork_active_at_block(London, b)
    }
    fn is_paris_active_at_block(&self, b: u64) -> bool {
        self.is_ethereum_fork_active_at_block(Paris, b)
    }
    fn is_shanghai_active_at_timestamp(&self, t: u64) -> bool {
        self.is_ethereum_fork_active_at_timestamp(Shanghai, t)
    }
    fn is_cancun_active_at_timestamp(&self, t: u64) -> bool {
        self.is_ethereum_fork_active_at_timestamp(Cancun, t)
    }
    fn is_prague_active_at_timestamp(&self, t: u64) -> bool {
        self.is_ethereum_fork_active_at_timestamp(Prague, t)
    }
    fn is_osaka_active_at_timestamp(&self, t: u64) -> bool {
        self.is_ethereum_fork_active_at_timestamp(Osaka, t)
    }
}
impl EthereumHardforks for EthereumChainHardforks {
    fn ethereum_fork_activation(&self, fork: EthereumHardfork) -> ForkCondition {
        self.forks
            .iter()
            .find(|(f, _)| *f == fork)
            .map(|(_, c)| *c)
            .unwrap_or_default()
    }
}
