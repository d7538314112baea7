"""bind.py MODULE_DIR JOBS.json: a history of calls of the Python binding; prints what each of them did"""
import json, sys
sys.path.insert(0, sys.argv[1])
import lttoolbox
lttoolbox.LtLocale.tryToSetLocale()
objs, out = {}, []
for op, name, *args in json.load(open(sys.argv[2], encoding='utf-8')):
    try:
        if op == 'new':
            objs[name] = lttoolbox.FST(*args)
        elif op == 'del':
            objs.pop(name, None)
        else:
            objs[name].lt_proc(tuple(args[0]), *args[1:])
        out.append('ok')
    except (RuntimeError, TypeError) as e:
        out.append(type(e).__name__)
print(json.dumps(out))
