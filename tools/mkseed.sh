#!/bin/bash
# mkseed.sh ID PROPERTY 'needs' 'what breaks': record the uncommitted change of /repo's scratch copy $W as a planted bug
set -e
d=/verif/seeded/$1; mkdir -p $d; cp -n /verif/tools/seedtpl/demo.sh /verif/tools/seedtpl/support.rs $d/
git -C ${W:-/tmp/w} diff > $d/patch.diff; git -C ${W:-/tmp/w} checkout -q -- .
python3 -c "import json,sys; json.dump({'property':sys.argv[2],'needs':sys.argv[3],'what_it_breaks':sys.argv[4]},open('/verif/seeded/'+sys.argv[1]+'/meta.json','w'),indent=1)" "$1" "$2" "$3" "$4"
wc -l $d/patch.diff
