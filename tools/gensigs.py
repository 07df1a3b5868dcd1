import sys, inspect, importlib, json, warnings
warnings.simplefilter("ignore")
mods = ["numpy","numpy.linalg","numpy.fft","scipy.integrate","scipy.interpolate","scipy.special","scipy.stats","scipy.signal","scipy.linalg","scipy.optimize","scipy.ndimage","pandas","matplotlib.pyplot","matplotlib.patches","matplotlib.cm","matplotlib.ticker","h5py","shutil","subprocess","os","os.path","json","re","itertools","functools","collections","copy","time","datetime","glob","tempfile","logging","getpass","pickle","math","operator","contextlib","warnings","random","string","textwrap","platform","socket","importlib","inspect","typing","io","sys","builtins","csv","hashlib","argparse","statistics","fnmatch","zipfile","gzip","types","traceback"]
out = {}
for m in mods:
    try: M = importlib.import_module(m)
    except Exception as e: print("no", m, e, file=sys.stderr); continue
    for n in dir(M):
        if n.startswith("_"): continue
        o = getattr(M, n)
        if not callable(o): continue
        try: s = inspect.signature(o)
        except (ValueError, TypeError): continue
        names, defs, ok = [], {}, True
        npos=0
        for p in s.parameters.values():
            if p.kind == p.POSITIONAL_ONLY: npos+=1; continue
            if p.kind == p.VAR_POSITIONAL: ok=False; break
            if p.kind in (p.POSITIONAL_OR_KEYWORD,): names.append(p.name)
            if p.kind in (p.POSITIONAL_OR_KEYWORD,p.KEYWORD_ONLY) and p.default is not p.empty and (p.default is None or type(p.default) in (bool,int,str,float)):
                defs[p.name] = p.default
        if not ok or npos: 
            if not defs or npos or not ok: continue
        if names and names[0] in ("args",) : continue
        out["%s.%s" % (m, n)] = [names, defs]
print(len(out), file=sys.stderr)
json.dump(out, open(sys.argv[1], "w"), sort_keys=True)
