import json,sys
for p in sys.argv[1:]:
    try: d=json.load(open(f'/var/tmp/w/o_{p}.json'))
    except Exception as e: print(p,'NO OUTPUT',e); continue
    print(p,{k:(v if not isinstance(v,(dict,list)) else v) for k,v in d.items() if k in('runs','determinism_mismatches','mismatches','seconds','wall_s','violations','harness_errors','distinct','truncated','counts','probes','faults','known')})
