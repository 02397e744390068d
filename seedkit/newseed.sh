#!/bin/bash
# newseed.sh ID SCRATCHREPO: lays down the files a demonstration needs
S=/verif/seeded/$1
mkdir -p $S/kit
cp /verif/seedkit/run.py /verif/lib/build.py /verif/lib/dev.py $S/kit/
cp -r /verif/shim $S/kit/
cat > $S/demo.sh <<'X'
#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
exec python3 "$D/kit/run.py" demo.py
X
