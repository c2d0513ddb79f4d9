"""property id -> simulation"""
_cache = {}


def get(pid):
    if pid not in _cache:
        from . import props_par, props_io, props_plumb, props_iso, props_fault, props_cli, props_env
        mods = [props_par, props_io, props_plumb, props_iso, props_fault, props_cli, props_env]
        for m in mods:
            cls = getattr(m, pid, None)
            if cls is not None:
                _cache[pid] = cls()
                break
        else:
            raise SystemExit('unknown property ' + pid)
    return _cache[pid]
