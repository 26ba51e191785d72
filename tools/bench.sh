for s in "$@"; do set -- $s; ASAN_OPTIONS=detect_leaks=0 timeout 100 ./build/$1 --property $2 --scenario $3 --shards ${5:-8} --shard ${4:-3} --budget ${B:-20} ${T} --out /tmp/o.json >/tmp/o.txt 2>&1; tail -2 /tmp/o.txt; python3 -c "
import json;d=json.load(open('/tmp/o.json'));print({k:d[k] for k in ('scenario','executions','complete','transitions','states','pruned','max_depth','capped','wall_s','violation','message')})"; done
