"""Which harness decides which property."""

HARNESSES = {
    "base": {"main": "base.cc"},
    "secagg": {"main": "secagg.cc"},
    "storage": {"main": "storage.cc"},
    "wire": {"main": "wire.cc"},
    "http": {"main": "http.cc"},
    "secnet": {"main": "secnet.cc"},
    "conf": {"main": "conf.cc"},
    "runner": {"main": "runner.cc", "defines": ["FCP_CLIENT_SUPPORT_TFMOBILE"],
               "exclude": ["fcp/client/engine/tflite_plan_engine.cc"], "libs": ["-lre2"]},
    "demo": {"kind": "python", "python": "/opt/fcp/pyvenv/bin/python", "main": "py/demo.py"},
}

PROPS = {
    "B01": {"harness": "base"},
    "B02": {"harness": "base"},
    "B03": {"harness": "base"},
    "B04": {"harness": "base"},
    "B05": {"harness": "base"},
    "B06": {"harness": "base"},
    "S01": {"harness": "secagg"},
    "S02": {"harness": "secagg"},
    "S03": {"harness": "secagg"},
    "S04": {"harness": "secagg"},
    "S05": {"harness": "secagg"},
    "S06": {"harness": "secagg"},
    "S07": {"harness": "secagg"},
    "S08": {"harness": "secagg"},
    "D01": {"harness": "storage"},
    "D02": {"harness": "storage"},
    "D03": {"harness": "storage"},
    "D04": {"harness": "storage"},
    "D05": {"harness": "storage"},
    "D06": {"harness": "storage"},
    "H01": {"harness": "wire"},
    "H05": {"harness": "wire"},
    "H06": {"harness": "wire"},
    "X01": {"harness": "wire"},
    "H02": {"harness": "http"},
    "H03": {"harness": "http"},
    "H04": {"harness": "http"},
    "H07": {"harness": "secnet"},
    "H08": {"harness": "http"},
    "H09": {"harness": "http"},
    "C01": {"harness": "http"},
    "X02": {"harness": "conf"},
    "X03": {"harness": "conf"},
    "R01": {"harness": "runner"},
    "R02": {"harness": "runner"},
    "R03": {"harness": "runner"},
    "R04": {"harness": "runner"},
    "R05": {"harness": "runner"},
    "R06": {"harness": "runner"},
    "F01": {"harness": "demo"},
    "F02": {"harness": "demo"},
    "F03": {"harness": "demo", "quick": 50},
    "F04": {"harness": "demo", "quick": 50},
}
NOT_APPLICABLE = {}
