"""Conversions from stored numbers to enumerations: number i is variant i, numbers past the last variant are refused."""
from ..core import FnContract

COUNTS = {"ActivationType": 2, "BaseFeeMode": 3, "BaseFeeMode__damm_v2_utils": 5, "CollectFeeMode": 2, "DammV2DynamicFee": 2, "FeeSchedulerMode": 2,
          "MigratedCollectFeeMode": 3, "MigrationFeeOption": 7, "MigrationOption": 2, "MigrationProgress": 4, "PoolType": 2, "SenderFlag": 2,
          "SwapMode": 3, "TokenAuthorityOption": 5, "TokenProgramFlags": 2, "TokenType": 2}
CON = {}
for _n, _k in COUNTS.items():
    CON[_n + "::try_from"] = FnContract(_n + "::try_from", "n", exact=True, result=lambda a: a.n, when=lambda a, k=_k: a.n < k)
