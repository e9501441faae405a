#!/usr/bin/env python3
# Development tool: groups the confirmed violations of a run on the unchanged tree (vjc -dump FILE per property)
# into known_findings.json. Never run by a check. Usage: known.py DUMP...   (prints what no rule explains)
import json, re, sys, collections

R = []
def rule(fid, props, typ, cls): R.append((fid, props.split(), re.compile(typ), re.compile(cls)))
WHAT = {}
def what(fid, text): WHAT[fid] = text

what('layout-comma', 'a time layout containing a comma is cut at the comma by tags.Parse')
rule('layout-comma', 'C01 C04 C06 C17 C09 C08', r'layouts\.L[16]$', r'acceptable document rejected|time not written|time round trip|encoded text is rejected')
what('layout-escape', 'text produced by a layout containing a quote, a backslash or a control character is written without escaping')
rule('layout-escape', 'C07 C08 C09 C17 C21', r'^textsu\.', r'output is not JSON|time not written|rejected|time round trip')
what('time-elements', 'elements of []time.Time and [N]time.Time: decode errors are swallowed and a declared layout is ignored')
rule('time-elements', 'C01 C03 C06 C17 C09 C08 C21', r'(layouts\.L3|times\.\w+|toparr\.\w+|topslice\.\w+|multi\.\w+|\w+\.\w*Time\w*)$', r'accepted for time|time decoded content|length of slice decoded content|null accepted for plain time|text that is no time accepted|time in another layout accepted|time not written in its layout|time round trip|encoded text is rejected')
rule('time-elements', 'C17', r'(raret\.TS(9|10)|rareq\.TSlSlPtrTm)$', r'text that is no time accepted|time in another layout accepted')
what('layout-const', 'layout:"time.X" is emitted as a quoted string when encoding')
rule('layout-const', 'C08 C17 C09', r'layouts\.L5', r'time not written|rejected|time round trip')
what('range-min', 'no lower bound check for int8/int16/int32/float32 and no range check at all for map values, elements behind names or pointers and top-level pointers')
rule('range-min', 'C02', r'', r'number (below|above) the range of u?(int|float)\d* accepted|number outside the float range accepted')
what('nested-map-errors', 'a map inside two slices: errors of its values are lost (shadowed err)')
rule('nested-map-errors', 'C02', r'colls\.TSlSlMp$', r'number (below|above) the range of int accepted')
rule('nested-map-errors', 'C04', r'rarec\.TSlSlMmp$', r'repeated member [ab] accepted')
what('dash-name', 'json:"-" members are still accepted by the strict validator')
rule('dash-name', 'C04', r'skips\.K2', r'undeclared member accepted')
what('named-null', 'a member of a named slice, map or reference type rejects null, which its denoted type accepts, while nil is encoded as null')
rule('named-null', 'C06', r'', r'acceptable document rejected')
rule('named-null', 'C16', r'', r'rejects what the denoted type accepts')
rule('named-null', 'C09', r'', r'the encoded text is rejected')
what('comma-after-null', 'no comma after a null written as the first member')
rule('comma-after-null', 'C07 C08 C09 C21', r'', r'members not separated or object not closed')
what('strict-embedded', 'a strict struct rejects the members of a struct embedded without a tag and accepts an undeclared member with an empty name')
rule('strict-embedded', 'C01 C04 C09 C15 C19', r'embed\.E3', r'acceptable document rejected|undeclared member accepted|encoded text is rejected|error text does not lead')
what('embedded-zero-omitted', 'an embedded struct with a JSON name that is zero is left out although it is not omitempty')
rule('embedded-zero-omitted', 'C08 C15', r'', r'^member left out')
what('bytearray-zero-null', 'a byte array of zeros is written as null')
rule('bytearray-zero-null', 'C08 C15 C18', r'bytes\.TAr|topfld\.Holder|embedn\.N[02]h', r'byte array not written as a string')
what('nil-time-pointer', 'a nil *time.Time is not written as null')
rule('nil-time-pointer', 'C08', r'', r'nil pointer not written as null')
what('omit-ptr-ref', 'a non-nil pointer to a pointer or to a reference type declared omitempty is left out')
rule('omit-ptr-ref', 'C08', r'(refs|rarep|rareq|gonames)\.', r'non-empty omitempty member left out')
what('omit-uuid', 'an empty omitempty identifier is written')
rule('omit-uuid', 'C08', r'', r'empty omitempty member written')
what('nil-pointer-roundtrip', 'a pointer to an empty datum is written as null or left out and read back as nil')
rule('nil-pointer-roundtrip', 'C09', r'', r'nil pointer round trip content')
what('omit-nil-deref', 'encoding a nil omitempty pointer to an identifier or array panics')
rule('omit-nil-deref', 'C09 C14', r'', r'encoding: panic: .*nil pointer dereference')
what('map-reset', 'Reset of a named map keeps its entries')
rule('map-reset', 'C10', r'', r'length of map content')
rule('map-reset', 'C16', r'', r'length of map after reset unlike')
what('trans-prior', 'decoding into a filled value of a type declared from a struct type clears the members the document lacks')
rule('trans-prior', 'C05', r'', r'earlier content of an absent member')
what('array-zero', 'the emptiness test of a named array of structs answers true for a non-zero array')
rule('array-zero', 'C11', r'(toparr|moret|raret)\.', r'emptiness test (true|false)')
what('bytearray-long', 'base64 text longer than the byte array panics')
rule('bytearray-long', 'C14', r'', r'decoding: panic: .*index out of range')
what('empty-struct-nil', 'MarshalJSON and MarshalTo of a nil pointer to a struct without members give {}')
rule('empty-struct-nil', 'C14', r'multi\.M8', r'nil pointer is not null')
what('named-range', 'references to named scalars are not range checked, the scalar itself is')
rule('named-range', 'C16', r'', r'accepts what the denoted type rejects')
what('uuid-elements', 'elements of []uuid.UUID and [N]uuid.UUID: decode errors are swallowed')
rule('uuid-elements', 'C18', r'', r'no identifier accepted')
what('error-path', 'the error does not name the element of a nested, string, time, identifier or byte string collection')
rule('error-path', 'C19', r'', r'error text does not lead to the place')

what('named-time', 'a type called Time or UUID of any imported package is treated as time.Time or uuid.UUID')
rule('named-time', 'C23', r'^C23\.(5[4-9]|6[0-9]|7[01])$', r'')

sites = collections.defaultdict(lambda: collections.defaultdict(set))
seen = set()  # properties of which a dump is given; the sites of the others stay as they are
bad = 0
for f in sys.argv[1:]:
    try: d = json.load(open(f)) or []
    except FileNotFoundError: continue
    seen.add(re.search(r'C\d\d', f).group())
    for v in d:
        if not v['confirmed']: continue
        v['class'] = re.sub(r'^[C0-9,]+\|', '', v['class'])
        for fid, props, t, c in R:
            if v['prop'] in props and t.search(v['type']) and c.search(v['class']):
                sites[fid][v['prop']].add(v['type'] + '|' + v['class']); break
        else:
            bad += 1
            print('UNEXPLAINED', v['prop'], v['type'], v['class'], '|', v['native'][:200])
path = '/verif/known_findings.json'
try: old = json.load(open(path))
except FileNotFoundError: old = {'findings': [], 'fixed': []}
for x in old['findings']:
    for p, ss in x['sites'].items():
        if p not in seen: sites[x['id']][p] |= set(ss)
out = {'findings': [{'id': k, 'what': WHAT[k], 'sites': {p: sorted(s) for p, s in sorted(sites[k].items())}} for k in WHAT if sites[k]], 'fixed': old.get('fixed', [])}
json.dump(out, open(path, 'w'), indent=1, ensure_ascii=False)
for x in out['findings']: print(x['id'], {p: len(s) for p, s in x['sites'].items()})
sys.exit(1 if bad else 0)
