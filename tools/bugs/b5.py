BUGS = []
def bug(**k): BUGS.append(k)

J = 'judy-1.0.5/src/'

bug(id='c28-hs-prefix', property='C28',
 edits=[(J + 'JudyHS/JudyHS.c', '''            if (memcmp(String, Pls->ls_String, Len) == 0)
                return ((PPvoid_t) (&(Pls->ls_Value)));''', '''            if (memcmp(String, Pls->ls_String, Len < 8 * WORDSIZE ? Len : 8 * WORDSIZE) == 0)
                return ((PPvoid_t) (&(Pls->ls_Value)));''')],
 kind='c', demo=r'''
#include <Judy.h>
#include <string.h>
#include <stdio.h>
int main(int n, char** a) {
	char s[101], t[101]; int i; Pvoid_t p = 0; Word_t* v;
	for (i = 0; i < 50; i++) { memcpy(s + 2 * i, "Aa", 2); memcpy(t + 2 * i, i == 40 ? "BB" : "Aa", 2); }
	v = (Word_t*)JudyHSIns(&p, s, 100, 0);
	if (!v) return 3;
	*v = 7;
	if (!JudyHSGet(p, s, 100)) return 3;
	return JudyHSGet(p, t, 100) ? 1 : 0;
}
''', needs='two long texts of one hash and a common beginning', breaks='a text which was never put in is found')

bug(id='c28-sl-prev', property='C28',
 edits=[(J + 'JudySL/JudySL.c', '''    ((SCLCMP(INDEX, PSCL) > 0) ? &PSCLVALUE(PSCL) : (PPvoid_t)NULL)''', '''    ((SCLCMP(INDEX, PSCL) >= 0) ? &PSCLVALUE(PSCL) : (PPvoid_t)NULL)''')],
 kind='c', demo=r'''
#include <Judy.h>
#include <string.h>
int main(int n, char** a) {
	Pvoid_t p = 0; uint8_t b[100]; const char* k[] = {"abc", "abcdefgh", "abcdefgh and something long"}; int i; void* v;
	for (i = 0; i < 3; i++) { Word_t* w = (Word_t*)JudySLIns(&p, (uint8_t*)k[i], 0); if (!w) return 3; *w = 1; }
	strcpy((char*)b, k[2]);
	v = JudySLPrev(p, b, 0);
	if (!v) return 1;
	return strcmp((char*)b, k[1]) ? 1 : 0;
}
''', needs='the entry before a string whose end is stored by itself', breaks='an iteration backwards stays where it is')

bug(id='c28-del-third', property='C28',
 edits=[(J + 'JudyCommon/JudyDecascade.c', '''	    Pop1 = JU_JPTYPE(Pjp) - cJ1_JPIMMED_5_02 + 2;
	    j__udyCopy5to6(PLeaf6, PLeaf5, Pop1, MSByte);''', '''	    Pop1 = 2;
	    j__udyCopy5to6(PLeaf6, PLeaf5, Pop1, MSByte);''')],
 kind='c', demo=r'''
#include <Judy.h>
int main(int n, char** a) {
	Pvoid_t p = 0; Word_t i, j, left; int bad = 0;
	for (i = 0; i < 100; i++) if (Judy1Set(&p, (Word_t)7 << 56 | i * 1000003, 0) != 1) return 3;
	for (i = 0; i < 60; i++) for (j = 0; j < 3; j++) if (Judy1Set(&p, (Word_t)3 << 48 | i << 40 | j << 30, 0) != 1) return 3;
	for (left = 59; left > 0; left--) {
		for (j = 0; j < 3; j++) if (Judy1Unset(&p, (Word_t)3 << 48 | left << 40 | j << 30, 0) != 1) bad = 1;
		for (i = 0; i < left; i++) for (j = 0; j < 3; j++) if (Judy1Test(p, (Word_t)3 << 48 | i << 40 | j << 30, 0) != 1) bad = 1;
	}
	return bad;
}
''', needs='deleting until groups of three, of one beginning each, are put together in a leaf', breaks='entries are lost')

bug(id='c28-free-last', property='C28',
 edits=[(J + 'JudyCommon/JudyFreeArray.c', '''	    for (offset = 0; offset < cJU_BRANCHUNUMJPS; ++offset)
	        j__udyFreeSM''', '''	    for (offset = 0; offset < cJU_BRANCHUNUMJPS - 1; ++offset)
	        j__udyFreeSM''')],
 kind='c', demo=r'''
#include <Judy.h>
int main(int n, char** a) {
	Pvoid_t p = 0; Word_t i, used;
	for (i = 0; i < 256 * 300; i++) if (!JudyLIns(&p, ~(i * 977), 0)) return 3;
	used = JudyLMemUsed(p);
	return JudyLFreeArray(&p, 0) == used ? 0 : 1;
}
''', needs='a full branch with something below its last child', breaks='memory is lost when an array is freed')

bug(id='c01-dict-hash', property='C01', also=['C04', 'C25'],
 edits=[(J + 'JudyHS/JudyHS.c', '''            if (memcmp(String, Pls->ls_String, Len) == 0)
                return ((PPvoid_t) (&(Pls->ls_Value)));''', '''            if (memcmp(String, Pls->ls_String, WORDSIZE) == 0)  // same hash, length and beginning
                return ((PPvoid_t) (&(Pls->ls_Value)));''')],
 demo='''
import pointless
for v in (['a' * 30, 'a' * 20 + '\\u1f60' + 'a' * 9], ['Aa' * 10, 'Aa' * 8 + 'BBAa'], {'x': 'Aa' * 10, 'y': 'Aa' * 9 + 'BB'}):
    b = pointless.serialize_to_bytearray(v)
    r = pointless.Pointless(b).GetRoot()
    got = {k: r[k] for k in r} if isinstance(v, dict) else list(r)
    assert got == v, got
''', needs='two strings of one length and hash', breaks='one string is stored as another')
