"""Subprocess run under AddressSanitizer: feeds generated cases to the C kernels."""
import json
import sys
import warnings

warnings.simplefilter("ignore")
root, pbt, *site = sys.argv[1:]
sys.path[:0] = [root, pbt]
sys.path += site
import numpy as np  # noqa
from quakemigrate.core import (centred_sta_lta, find_max_coa, migrate,  # noqa
                               overlapping_sta_lta)
from checks.c01_migrate import arrays  # noqa
from checks.c03_stalta import signal  # noqa

cases = json.load(sys.stdin)
for c in cases.get("migrate", []):
    on, tt = arrays(c)
    m = migrate(on, tt, c["first"], c["last"], c["n_onsets"], c["threads"])
    find_max_coa(m, c["threads"])
for c in cases.get("stalta", []):
    x = signal(c)
    overlapping_sta_lta(x, c["nsta"], c["nlta"])
    centred_sta_lta(x, c["nsta"], c["nlta"])
print("done")
