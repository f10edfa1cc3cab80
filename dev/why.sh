# why.sh DIFF PROP : the check's report on a scratch copy with DIFF applied
D=/tmp/sc/w$$; mkdir -p $D; (cd /repo && git archive HEAD | tar x -C $D); (cd $D && patch -s -p1 < $1); cd /verif
IWYU_REPO=$D IWYU_EVIDENCE=/tmp/sc/ev python3 check.py $2 2>&1 | cut -c1-${3:-420}; git -C /verif status --short | head -3; find $D -delete
