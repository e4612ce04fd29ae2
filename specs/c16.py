"""C16: standardizing keeps every cell."""
from specs import cio, cstd

ASSUMED = cstd.ASSUMED
CONTRACTS = cstd.PATHS + [cio.MakeWriter("name", over=False), cio.WriteRow("writerow"), cio.WriteRow("writerows")]
TRUSTED = cstd.TRUST
