# seedtest.sh ID...: run the property's check (or PROPS) on each seed
for id in "$@"; do
 p=${PROPS:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
 out=$(TAIL=40 bash /verif/tools/dev/m.sh /verif/seeded/$id/patch.diff $p)
 echo "$id: $(echo "$out" | grep -c '^VIOLATION') VIOL | $(echo "$out" | grep -v '^  ' | head -${H:-2} | tr '\n' ' ' | cut -c1-230)"
done
