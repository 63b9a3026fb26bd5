import sys, os, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__))); sys.path.insert(1, os.path.dirname(sys.path[0]))
import driver, checks
prop = sys.argv[1]
tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
seed = int(os.environ.get('VERIF_SEED', '1') or 1)
kf = os.path.join(driver.VERIF, 'known_findings.json')
known = json.load(open(kf))['open'] if os.path.exists(kf) else []
jobs = getattr(checks, prop)(tier)
meta = getattr(checks, 'META', {}).get(prop, {})
if len(sys.argv) > 3:
    import re
    jobs = [j for j in jobs if re.search(sys.argv[3], j.name)]
try: rc = driver.run(prop, jobs, tier, deadline_s=840 if tier == 'quick' else 7000, seed=seed, known=known, meta=meta)
except Exception:
    import traceback; traceback.print_exc(); rc = 2
sys.exit(rc)
