# Sourced by the development scripts.
V=/verif
GO=/opt/veriftools/go1.26.10/bin/go
export HOME=/root GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
build_overlay() {
  python3 - "$1" <<'P'
import json,os,sys,glob
d=sys.argv[1]
rep={}
for f in glob.glob('/verif/harness/*.go'):
    rep[os.environ.get('ZZ_REPO','/repo')+'/zzverif/'+os.path.basename(f)]=f
rep[os.environ.get('ZZ_REPO','/repo')+'/zzsched/sched.go']='/verif/sched/sched.go'
json.dump({"Replace":rep},open(d+'/overlay.json','w'))
P
}
build_bin() { (cd ${ZZ_REPO:-/repo} && $GO test -vet=off -c -overlay $1/overlay.json -o $2 ./zzverif); }
