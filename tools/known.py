# Writes known-findings.txt.
import subprocess
M={'318732f':('C02','"256"-like numbers just beyond a second wrap-around were accepted as int8/int16/int32 with a wrong value'),
'8d56fbc':('C10','values following a value decoded through a pointer were decoded into the wrong destination'),
'dde98c1':('C06','only the first token of an unknown member\'s array or object was skipped'),
'c07e321':('C06','the object decoded into struct{} was not skipped'),
'af04a0c':('C07','`,string` numbers and Number strings with trailing garbage, empty or incomplete numbers were accepted'),
'5d1ac85':('C08','integer map keys with escapes or out of range were mishandled'),
'63aa564':('C07','escape sequences and "null" inside of `,string` values were rejected or stored raw'),
'5c16e53':('C06','field names whose case variants have other byte lengths were not matched'),
'0e71c2d':('C06','tag "-", ambiguous names, unexported fields and tag options were resolved unlike encoding/json'),
'8351f85':('C12','T was taken from the dynamic value, interfaces with methods were accepted and crashed'),
'93dbffd':('C11','siblings following a recursive value were decoded into the wrong memory'),
'8783474':('C20','unsupported recursive types overflowed the stack in NewDecoder'),
'a849a8b':('C04','UTF-16 surrogate pairs were decoded as two replacement characters'),
'ceb1acb':('C04','invalid UTF-8 was kept'),
'654c839':('C12','unmarshalers of slice elements and map keys/values of primitive kinds were not called'),
'd319d78':('C08','unsupported map key types were accepted'),
'15aa4cc':('C14','existing maps were replaced and existing map values were merged'),
'9dff85f':('C12','pointers to unmarshaler types were rejected or crashed'),
'1ec9d6a':('C10','null changed values it has no effect on'),
'0fe725e':('C09','array elements beyond the end of the input kept their old value'),
'9fc9504':('C03','-0 decoded to +0'),
'9565616':('C09','base64 strings were not decoded into byte slices'),
'1806f94':('C09','elements of []struct{} were not checked'),
'5677dbb':('C18','errors inside of any had the wrong cause and index'),
'a287624':('C20','deeply nested input into any overflowed the stack'),
'6e3de25':('C07','`,string` had no effect on pointer fields'),
'b82c1ec':('C03','-0 in []float32/[]float64 decoded to +0'),
'034b4a0':('C15','growing a non-empty slice of pointer-free elements crashed the process during garbage collection'),
'ea93cb6':('C10','null left text unmarshalers of slice and map kinds unchanged'),
'015d4f3':('C07','`,string` strings: escaped null and invalid UTF-8'),
'55b997d':('C22','Unmarshal returned nil for an error ErrStringTagOptionOnUnsupportedType of an unmarshaler'),
'de41038':('C11','inside of recursions map values and pointees were written at the offset of an enclosing slice element (out of bounds)'),
}
out=subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%h %H %s','--grep=^fix:'],text=True).splitlines()
L=[]
for l in out:
    h,H,s=l.split(' ',2)
    p,w=M.pop(h)
    L.append(f'fixed: property={p} {H} {w}')
assert not M,M
open('/verif/known-findings.txt','w').write('\n'.join(L)+'\n')
print(len(L))
