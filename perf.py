import json,sys
c=json.load(open(f'evidence/{sys.argv[1]}.json'))['coverage']
for c in sorted(c['per_configuration'],key=lambda c:-c['wall_s'])[:int(sys.argv[2]) if len(sys.argv)>2 else 5]: print(c['wall_s'],c['config'],c['obligations'],c['paths'],c['queries'])
