NA = {}
X = {"C10": {"technique": "TLC model check of RegistryProtocol.tla; every interleaving (bounded preemptions) of real library threads explored and each recorded history checked by TLC; threads sharing immutable fields validated against EAntic.tla; TSAN build",
             "note": "Preemption-bounded schedules on small thread programs, sampled beyond that."},
     "C18": {"technique": "trace validation: seeded Python programs executed with the real bindings (cppyy), every recorded step checked by TLC against the TLA+ state machine EAntic.tla",
             "note": "The SageMath layer (real_embedded_number_field.py, sage_conversion.py) cannot run here: no SageMath, no gmpy2."}}
