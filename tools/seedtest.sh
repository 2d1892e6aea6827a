#!/bin/bash
# seedtest.sh ID... : confirm planted changes in private copies of /repo (bind-mounted in a mount namespace)
for id in "$@"; do
S=/verif/seeded/$id; C=/tmp/seedcopy_$id
rm -rf "$C"; cp -a /repo "$C"; D=$(mktemp -d /tmp/seeddemo.XXXX); cp "$S"/* "$D"/; rm -f "$D"/*.diff "$D"/meta.json
unshare -m bash -c "mount --bind $C /repo; cd /repo
 git apply --check $S/patch.diff || { echo $id NOAPPLY; exit 1; }
 timeout 300 bash $D/demo.sh >/tmp/sd_$id.base 2>&1; b=\$?
 git apply $S/patch.diff
 bash /opt/vp/build.sh >/tmp/sd_$id.build 2>&1; bl=\$?
 timeout 300 bash $D/demo.sh >/tmp/sd_$id.bug 2>&1; g=\$?
 if [ -z \"$NOTEST\" ]; then bash /opt/vp/test.sh /tmp/sd_$id.json >/tmp/sd_$id.test 2>&1; fi
 t=\$(tail -1 /tmp/sd_$id.test)
 echo $id base=\$b bug=\$g build=\$bl tests=\"\$t\"
 git status --short | head -5"
rm -rf "$C" "$D"
done
