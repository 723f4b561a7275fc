import json,sys
sys.path.insert(0,'/verif/tools')
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
T="contract-based deductive verification (Verus/Z3) of contracts and obligations generated from /repo's current source on every run"
TECH={"C01":T+"; Kani/CBMC contracts on the byte conversions","C10":T+"; Kani/CBMC contract on the identifier's decoding"}
NOTE={}
exec(open('/verif/tools/dev/notes.py').read())
base=json.load(open('/verif/tools/baseline.json'))
import props as PR
def names(sel,f):
    return sorted({o for u,fs in base['units'].items() if sel(u,None) for o in fs if f(o)})
main=lambda o:o.endswith('::rt') or o.startswith(('form_','n_','d_','l_dummy','l_text_'))
TH={'C01':['l_guid_form','l_guid','l_guid_inj','encode','decode_digits','decode'],'C02':names(PR.entities,main),'C03':names(PR.dispatch,main),'C04':names(PR.model,main),'C05':names(PR.head,main),'C06':names(PR.texts,main),'C07':names(PR.numbers,main),'C08':names(PR.is_enum,main),'C10':names(PR.every,lambda o:o.endswith('eats') or o.startswith('c10_'))}
TH['C09']=base['modb']['refs']; TH['C11']=base['modb']['store']; TH['C13']=base['modb']['extract']; TH['C12']=[n for n in base['modb']['build'] if n.startswith('c12_')]; TH['C14']=[n for n in base['modb']['links'] if n.startswith('c14_')]
TH['C15']=[n for n in base['modb']['shape'] if n.startswith('c15_')]
TH['C16']=[n for n in base['modb']['attrs'] if n.startswith('c16_')]
TH['C17']=[n for n in base['modb']['mapped'] if n.startswith('c17_')]
TH['C18']=[n for n in base['modb']['moved'] if n.startswith('c18_')]
for p in props: TH.setdefault(p['id'],[])
TM='contract-based deductive verification (Verus/Z3) of contracts over the functions of the compiled crate (MIR of /repo\'s current source, executed symbolically on every run)'
TECH.update(C09=TM,C11=TM,C12=TM,C13=TM,C14=TM,C15=TM,C16=TM,C17=TM,C18=TM)
NA=json.load(open('/verif/tools/dev/na.json'))
m=dict(version=1,setup_cmd="bash tools/setup.sh",
 checks=[dict(property=p["id"],quick_cmd="python3 tools/check.py "+p["id"],thorough_cmd="VERIF_TIER=thorough python3 tools/check.py "+p["id"],technique=TECH.get(p["id"],T),level="proof",
   level_note=NOTE[p["id"]],theorems=TH[p["id"]]) for p in props if p["id"] not in NA],
 not_applicable=[dict(property=k,reason=v) for k,v in NA.items()],
 notes="No hooks in /repo: the checks read its source and link its crate. Known findings and repaired defects: KNOWN_FINDINGS.txt.")
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
