cd /tmp; W=/tmp/sdall.$$; mkdir -p $W
one() { id=$1; W=/tmp/sdall.$2; D=$W/$id; mkdir -p $D; git -C /repo archive HEAD | tar x -C $D; cd $D; git init -q . 2>/dev/null
timeout 300 bash /tmp/vw/seeded/$id/demo.sh >$W/$id.clean 2>&1; a=$?; git apply /tmp/vw/seeded/$id/patch.diff; b=$?; timeout 300 bash /tmp/vw/seeded/$id/demo.sh >$W/$id.bug 2>&1; c=$?; [ $a = 0 ] && [ $b = 0 ] && [ $c != 0 ] || echo "$id clean=$a apply=$b bug=$c"; rm -rf $D; }
export -f one
ls /tmp/vw/seeded | xargs -P 6 -I{} bash -c "one {} $$"
rm -rf $W
