import json,glob,importlib,sys,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0,V)
base=open(V+'/DESIGN.md').read().split('\n## Properties')[0].rstrip()+'\n'
COST={'C01': '100 s', 'C02': '3 s', 'C03': '2 s', 'C04': '35 s', 'C05': '8 s', 'C06': '5 s', 'C07': '13 s', 'C08': '3 s', 'C09': '8 s', 'C10': '10 s', 'C11': '7 s', 'C12': '3 s', 'C13': '15 s', 'C14': '40 s', 'C15': '23 s', 'C16': '23 s', 'C17': '30 s', 'C18': '45 s', 'C19': '7 s', 'C20': '75 s', 'C21': '28 s', 'C22': '2 s', 'C23': '69 s', 'C24': '27 s', 'C25': '26 s', 'C26': '39 s', 'C27': '63 s', 'C28': '27 s', 'C29': '47 s', 'C30': '2 s'}
H={
'C01':('every header byte symbolic; the oracle computes, for every message of the dialect, the distance of marker, length and id byte and demands that none is smaller than the reported one, and that the reported one is attained','tests try a few headers; the minimum depends on all 155 (length, id) pairs at once'),
'C02':('fields and ids symbolic beyond their legal range: legal ones must give the exact six bytes, the others an error; arbitrary six bytes parsed back','tests sample in-range values; boundaries (255/256, unknown ids) are solver inputs here'),
'C03':('distance compared with the sum of differing bits of symbolic operands of every kind','exhaustive over values of the stated widths'),
'C04':('fully symbolic short buffers, plus streams of frames with symbolic payload, checksum and gaps, false headers that overlap frames; the oracle is an independent bitwise CRC-16 scanner','a wrongly skipped or accepted frame needs a specific overlap or checksum'),
'C05':('labels symbolic; runs computed by an independent scan','all labellings of the stated lengths'),
'C06':('structure ids and buffers symbolic; adherence recomputed; registration histories; equality under permutation','short buffers and unknown ids raised before the fix'),
'C07':('frames with symbolic payload/ids and independent CRC (seed recomputed from the message definition); decode, repack, rebuild from field values; symbolic error patterns (1..3 flips, 16-bit bursts) must be rejected; the message table is compared with HC_dialect.xml','error detection is a statement over all error patterns, decided by z3 over GF(2) normal forms'),
'C08':('id symbolic: payload lengths and field order against the packing format; field report of frames with symbolic payload','tests check single messages'),
'C09':('layouts of several messages; every buffer byte symbolic; per-bit ownership and values recomputed; number to bits for all integer types, with symbolic fractions','exact bit-by-bit agreement for all contents'),
'C10':('addition histories as symbolic samples, window sizes enumerated; mean/spread over reals; outlier probability over finite tables','stale statistics need specific histories'),
'C11':('field values of symbolic buffers over histories; save/load through a scratch file','windows, unseen fields, damaged fields'),
'C12':('data symbolic over a small alphabet; distributions as families (every k/n); entropy and Hellinger tabulated per family row','boundary cases: constant data, disjoint supports, nan'),
'C13':('histories of symbolic buffers through every learning decoder; frequencies and entropy recomputed','windows, clusters, all-equal data'),
'C14':('learned model from symbolic buffers times symbolic channel values; evidence, clipping and confidence formulas recomputed','aliasing of the observation, thresholds, sign cases'),
'C15':('channel decoder replaced by a stand-in with arbitrary outcome; estimates contain frames with symbolic payload and checksum','which attempts are made and learned depends on success flags and parsing together'),
'C16':('streams with arbitrary outcomes and labels; decoder input and learned model recomputed per cluster','training phase, turns, failure cases'),
'C17':('buffers symbolic, merge order recomputed under every metric/weighting (ties may go either way)','small sets of buffers decide the order'),
'C18':('sequences symbolic; counts, posteriors and losses recomputed with exact channel inverses','edges of the sequence, unseen contexts'),
'C19':('histories and observations symbolic, soft and hard','window and clipping of the unfolding'),
'C20':('both component decoders arbitrary; extrinsic information recomputed from recorded inputs and outputs','interleaving of successes'),
'C21':('confusion matrices with symbolic entries; textbook ratios','empty classes'),
'C22':('random draw replaced by an arbitrary symbolic state whose distribution is recorded','order of states in the row'),
'C23':('field models learned from symbolic values; observation symbolic on chosen bits; expected factor per bit recomputed from field, probability and segmentation','forced bits, fields without model, repaired messages'),
'C24':('streams with arbitrary outcomes; what is decoded, returned, learned; clusters and repeated attempts','structure discovery order'),
'C25':('error positions symbolic; confusion counts recomputed; debug and non-debug twins must behave alike','several errors per field, errors outside'),
'C26':('streams with symbolic channel values; counts per bit, context and cluster recomputed','mixing of clusters or bits'),
'C27':('frames, gaps and checksums symbolic; every cut of the stream; oracle is an independent framing loop','chunk boundaries'),
'C29':('predicted labels and classes symbolic; bijection and greedy pairing stated over the overlap counts, so ties do not matter','two clusters that prefer the same class'),
'C30':('every byte of every buffer symbolic; what a recording stand-in of the encoder is given is compared bit by bit','lengths at multiples of the code size'),
'C28':('every binary data set as one family; posteriors and EM steps recomputed','weighting errors'),
}
import re
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
out=[base,'\n## Properties\n','For each property: what is executed symbolically and compared with which oracle, bounds, time of the quick check on this machine (8 cores), and why it\nreaches what tests cannot. Oracles are written in the harness from the documented behaviour, not taken from the code. All properties are decided by\nthe method above; none is listed as not applicable.\n']
for p in props:
    m=importlib.import_module('checks.'+p['id'].lower())
    e=json.load(open('/verif/evidence/%s.json'%p['id'])) if os.path.exists('/verif/evidence/%s.json'%p['id']) else {}
    h,w=H[p['id']]
    out.append('### %s %s\n'%(p['id'],p['title']))
    out.append('- Encoding and oracle: %s. Code: %s.'%(h,', '.join(p['anchors']['files'])))
    out.append('- Bounds (quick): %s.'%m.BOUNDS['quick'])
    if m.BOUNDS.get('thorough'): out.append('- Bounds (thorough): %s.'%m.BOUNDS['thorough'])
    if getattr(m,'OUTSIDE',''): out.append('- Outside: %s.'%m.OUTSIDE)
    if getattr(m,'ASSUMPTIONS',[]): out.append('- Assumptions: %s.'%'; '.join(m.ASSUMPTIONS))
    out.append('- Why beyond tests: %s. Cost: %s.\n'%(w,COST.get(p['id'],'') if 'COST' in globals() else ''))
tail=open(V+'/tools/design_tail.md').read()
rows=['| change | property | needs |','|---|---|---|']
for f in sorted(glob.glob(V+'/seeded/*/meta.json'),key=lambda f:json.load(open(f))['property']):
    m=json.load(open(f)); rows.append('| %s | %s | %s |'%(os.path.basename(os.path.dirname(f)),m['property'],m['needs'].replace('|','/').replace(chr(10),' ')))
fs=[]
for k in json.load(open(V+'/known_findings.json')):
    fs.append('- %s (%s): %s%s'%(k['id'],k['property'],re.sub(r'^fixed: property=\S+ (\S+) ',r'fixed in \1: ',k['what']),'' if k['status']=='fixed' else ' **(known, not repaired: the repair means parsing repeat counts throughout the bit map code; printed as KNOWN-FINDING)**'))
out.append(tail.replace('@SEEDED@',chr(10).join(rows)).replace('@FINDINGS@',chr(10).join(fs)))
open(V+'/DESIGN.md','w').write('\n'.join(out))
