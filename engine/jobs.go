package main

import (
	"fmt"
	"strconv"
	"strings"
)

// js reads job descriptions, one per line: harness, optional hash=..,
// strict=.., limit=.., then the parameters.  "A|B|C" in a parameter position
// makes one job per alternative; "a..b" likewise.
func js(text string) []Job {
	var out []Job
	for _, l := range strings.Split(text, "\n") {
		if i := strings.Index(l, "#"); i >= 0 {
			l = l[:i]
		}
		f := strings.Fields(l)
		if len(f) == 0 {
			continue
		}
		j := Job{Harness: f[0], Strict: 3}
		if strings.HasPrefix(f[0], "HUtfc") {
			j.Strict = 1
		}
		alts := [][]string{}
		for _, a := range f[1:] {
			switch {
			case strings.HasPrefix(a, "hash="):
				j.Hash = a[5:]
			case strings.HasPrefix(a, "strict="):
				j.Strict, _ = strconv.Atoi(a[7:])
			case strings.HasPrefix(a, "limit="):
				j.Limit, _ = strconv.Atoi(a[6:])
			case strings.Contains(a, ".."):
				var lo, hi int
				fmt.Sscanf(a, "%d..%d", &lo, &hi)
				var l []string
				for k := lo; k <= hi; k++ {
					l = append(l, strconv.Itoa(k))
				}
				alts = append(alts, l)
			default:
				alts = append(alts, strings.Split(a, "|"))
			}
		}
		var rec func(k int, ps []int)
		rec = func(k int, ps []int) {
			if k == len(alts) {
				n := j
				n.Params = append([]int{}, ps...)
				out = append(out, n)
				return
			}
			for _, a := range alts[k] {
				// "22,11" stands for two parameters
				q := append([]int{}, ps...)
				for _, s := range strings.Split(a, ",") {
					v, err := strconv.Atoi(s)
					if err != nil {
						panic("bad job " + l)
					}
					q = append(q, v)
				}
				rec(k+1, q)
			}
		}
		rec(0, nil)
	}
	return out
}

func jobsFor(prop, tier string, seed int) []Job {
	s := strconv.Itoa(seed)
	t := strings.ReplaceAll(quickJobs[prop], "SEED", s)
	if tier == "thorough" {
		t += "\n" + strings.ReplaceAll(thoroughJobs[prop], "SEED", s)
	}
	return js(t)
}

var quickJobs = map[string]string{
	"C01": `
HBig -4 70000 SEED 3 1 30000
HFind -4 300 SEED 3 0 3
HBig -8 18 SEED 3 1 100
HBig -9 24 SEED 2 1 100
HFind hash=const 33,12 1 10 0 2
HFind hash=const 22,11 1 10 0 2
HBig -11 60 SEED 3 1 20
HBig -7 300 SEED 2 1 20
HFind hash=const 333,112|333,121 3 2 0 2
HFind hash=const 233,121 3 2 0 3
HEmpty 0..2
HFind hash=const 22,11|23,12|33,12|12,11 3 0 1 1
HFind hash=const 22,12|33,13|233,123|334,133 0 0 0 2       # repeated keys, prefixes
HFind hash=uf 22,11 7 0 0 2
HFind hash=const 222,111 3 1 0 1
HFind hash=const 2222,1111 3 3 0 1
HFind -1 300 SEED 3 0 3
HFind -2 300 SEED 4 0 5
HFind -6 600 SEED 4 0 2
HFind -4 60 SEED 3 0 4
HFind -5 300 SEED 3 0 3
HFind -7 300 SEED 3 0 3
HFind hash=const -2 60 SEED 6 0 4
HFind hash=const -1 40 SEED 5 0 3
`,
	"C02": `
HWalk -4 300 SEED 3 1
HBig -9 24 SEED 3 1 60
HWalk hash=const 33,12 1 11 1
HWalk hash=const 22,11 2 10 1
HBig -11 100 SEED 3 1 10
HBig -7 200 SEED 2 1 10
HEmpty 0..2
HWalk hash=const 22,11|23,12|12,11|33,12 7 0 1
HWalk hash=uf 22,11 3 0 1
HWalk hash=const 333,112|333,121|233,121 2 2 1
HWalk hash=const 222,111 3 1 1
HWalk hash=const 22,12|33,13 0 0 1
HWalkString hash=const 22,11|23,12|33,12 3 0 2
HWalkString hash=const 12,11 3 0 1
HWalkString -1 40 SEED 3 3
HWalkString -2 60 SEED 4 4
HWalk -1 200 SEED 3 1
HWalk -2 300 SEED 4 1
HWalk -4 120 SEED 3 1
HWalk -6 600 SEED 4 1
`,
	"C03": `
HForms -4 300 SEED 3 3
HForms hash=const 22,11|23,12|33,12|12,11 3 0 2
HForms hash=uf 22,11 3 0 2
HForms hash=const 333,112 2 2 2
HForms hash=const 22,12 3 0 3
HForms -1 40 SEED 3 3
HForms -2 60 SEED 4 4
HForms -4 12 SEED 3 5
HForms hash=const -2 30 SEED 6 3
`,
	"C04": `
HFind -4 300 SEED 3 0 2
HInsert hash=uf 33|23|32|22|13|31 0|1 0 0 
HInsert hash=uf 222|232 0 0 0
HInsert hash=uf 33|23 0 1|2 0
HInsert hash=const 333 0 0 0
HInsert hash=const 2222 0 0 0
`,
	"C05": `
HMinimalBig -7 6000 SEED 3 0
HMinimalBig -4 300 SEED 4 0
HMinimal hash=uf 33,12|22,11|23,12 0 10
HMinimal hash=const 33,11 0 11
HMinimalBig -2 300 SEED 3|4 0
HMinimalBig -11 100 SEED 3|4 0|1
HMinimalBig -7 300 SEED 2|4 0|5
HMinimalBig -9 12 SEED 2 0
HHashSize -2 40 SEED 4 1|2|3
HMinimal hash=uf 333,112 0 0
HMinimal hash=uf 33,11|33,12|23,12|22,11|12,11 0 0
HMinimal hash=uf 44,12 0 1
HMinimal hash=uf 222,111|333,121 0 1
HMinimal hash=const 333,111 0 0
HMinimal hash=const 22,12|33,13|333,113|333,131 0 0
HMinimal hash=const -2 20 SEED 6
HMinimal hash=const -1 12 SEED 6
HMinimal -2 60 SEED 4
HMinimal -1 60 SEED 4
HMinimal -6 80 SEED 4
`,
	"C06": `
HMinimalBig -7 6000 SEED 3 1
HMinimalBig -2 600 SEED 3|4 1|2|300
HMinimalBig -11 200 SEED 3|4 1|3
HMinimalBig -7 300 SEED 2|4 1|100
HMinimalBig -9 10 SEED 2 1|7
HHashSize 33,12 1 2 1|2|3
HHashSize hash=uf 33,11|333,112 0 1 1
HHashSize hash=const 333,111 0 1 2
HHashSize hash=uf 23,12 0 0 0|-1
HHashSize -2 40 SEED 4 1|2|3|5|16|1000
HHashSize -1 60 SEED 4 1|7|256
HHashSize hash=const -2 20 SEED 6 1|4
HReuse hash=uf 33,11 0 0 22,11 0 0 0 0..2
HReuse hash=uf 33,12 0 1 22,11 0 1 2 0..2
HReuse hash=const 33,11 0 0 22,11 0 0 0 3|4
HReuse hash=const 33,12 0 1 22,11 0 1 2 3|4
HReuse hash=const 333,112 0 1 33,11 0 1 1 0..1
HReuse -2 40 SEED 4 -2 30 7 4 4 0..4
HReuse -1 40 SEED 4 -2 30 7 4 0 0|3|4
`,
	"C07": `
HBig -4 300 SEED 5 2 100
HComplete -4 300 SEED 5 1 20
HComplete hash=const 33,12|22,11 1 10 0|1 1
HBig -11 100 SEED 3 2 1
HBig -7 200 SEED 2 2 1
HBig -9 12 SEED 2|3 2 1
HEmpty 0..2
HComplete hash=const 22,11|23,12|33,12|12,11|123,112 3 0 0|1|2 1
HComplete hash=const 333,112|333,121|233,123 2 2 0|1 1
HComplete hash=const 222,111 3 1 0 1
HComplete hash=uf 22,11 3 0 0 1
HComplete hash=const -2 40 SEED 6 0|1 1
HComplete hash=const -1 30 SEED 5 0|1|2 1
HComplete hash=const -4 20 SEED 5 0|1 1
HComplete hash=const -6 80 SEED 6 0 1
HComplete hash=const -7 40 SEED 5 1 1
`,
	"C08": `
HBig limit=250 -7 13200 SEED 3 4 30000
HBig -4 300 SEED 3 4 100
HRanked hash=const 33,12|22,11 1 10 0|1 1
HRanked hash=const 44,23 1 11 0 1
HBig -11 100 SEED 3|4 4 1
HBig -7 200 SEED 2|3 4 1
HBig -9 8 SEED 4 4 1
HEmpty 0..2
HRanked hash=const 22,11|23,12|33,12|12,11|123,112 3 0 0|1 1
HRanked hash=const 333,112|333,121|233,123 1 0 0|1 1
HRanked hash=const 222,111 3 0 0|2 1
HRanked hash=const 2222,1111 1 1 0 1
HRanked hash=const -2 20 SEED 6 0|1 1
HRanked hash=const -1 12 SEED 5 0|1|2 1
HRanked hash=const -4 8 SEED 5 0|1 1
HRanked hash=const -6 40 SEED 6 0 1
HRanked -2 60 SEED 4 0|1 1
HRanked -6 200 SEED 4 0 5
`,
	"C09": `
HBig -4 300 SEED 5 24 100
HHuge 0..7 0|1 0|1 0|1
HHuge 20 0|1 0|1 0|1 3|10|14 12345
HHuge 30 0|1 0|1 0|1 0|12|24 777777
HIndex hash=const 33,12|22,11 1 10 0|1 1
HBig -10 2|3 1 2 24 3
HBig -11 60 SEED 3 24 1
HBig -7 200 SEED 2 24 3
HEmpty 0..2
HIndex hash=const 22,11|23,12|33,12|12,11|123,112 3 0 0|1 1
HIndex hash=const 333,112|333,121|233,123 2 2 0|1 2
HIndex hash=const 222,111 3 1 0|1 1
HIndex hash=const 2222,1111 2 3 0|1 1
HIndex hash=const -2 30 SEED 6 0|1 2
HIndex hash=const -1 20 SEED 5 0|1 2
HIndex -2 100 SEED 4 0|1 3
HIndex -1 100 SEED 3 0|1 2
HIndex -6 300 SEED 4 0|1 -1
HIndex -4 30 SEED 3 0|1 3
`,
	"C10": `
HBig -9 6 SEED 2 33 20
HRoundTrip 0..3 0..4 0..2
HRoundTrip 0..3 300 0|2
HRoundTrip 0..3 70000 0
HReload hash=const 22,11|23,12|12,11 3 0 1
HReload hash=const 33,12 2 1 2
HReload -2 40 SEED 4 2
HReload -1 30 SEED 3 2
HEmpty 0
`,
	"C11": `
HTruncated 0..3 0..4 0..4
HTruncated 0..3 200 0|1
HFailWrite 0..3 0..4 0..2
HFailWrite 0..3 200 0..2
`,
	"C12": `
HUtfc 3 121|242|363|484|605|726|847|968 1
HUtfc 1 0 1
HUtfc 2 0 1
HUtfc 2 0 1 40|200|1100 SEED
HUtfcDistinct 1 1|2 0 0
HUtfcDistinct 2 2 0 0
`,
	"C13": `
HUtfc 0..4 0 2
HUtfc 2 0 2 40|200|1100 SEED
HUtfcKey 1..3 0 0
HUtfcKey strict=3 hash=uf 1 1..8 1
`,
	"C14": `
HUtfcPieces 2 0 0..2 0..3
HUtfcPieces 3 121|242|363|484|605|726|847|968 1|2 1
HUtfcRefuse 1 0 -1 0..1
HUtfcRefuse 2 0 -1 0..1
HUtfcRefuse 3 0 0|1|2|3|4|6 0
`,
	"C15": `
HUtfcHistory 1 0 1|2|4|7 1 0
HUtfcHistory 1 0 2 2 0
HUtfcHistory 2 0 1|2|3 1 0
HUtfcHistory 1 0 7 2 0
HUtfcHistory 1 0 7 1 0 600
HUtfcHistory 1 0 3 1 0 1100
HUtfcHistory 2 0 4 1 0
`,
	"C16": `
HReadOnly 0 0 0 0 1
HReadOnlyLoaded 0 0 0 0 1
HReadOnly hash=const 22,11|23,12|33,12|12,11 3 0 1
HReadOnly hash=const 333,112 1 2 2
HReadOnlyLoaded hash=const 22,11|33,12 2 0 1
HReadOnly -2 30 SEED 4 2
HReadOnly -1 20 SEED 3 3
HReadOnlyLoaded -2 30 SEED 4 2
`,
	"C17": `
HBig -8 18 SEED 3 1 50
HBig -8 18 SEED 3 14 60
HBig -9 30 SEED 3 1 60
HBig -9 40 SEED 4 1 60
HBig -9 40 SEED 4 14 17
HBig -9 24 SEED 3 22 31
HBig -10 20 SEED 3 15 60
HBig -7 1000 SEED 3 1 40
HBig -7 1000 SEED 2 14 40
HWide 8300 77|255|256|3000 5000|-3000|-6|-300 0|1 0|20|60
HWide 8300 -6|-3000|-4096|-77 0|77|255|3001 0|1 0|20|60
HWide 8300 -3000 72|73|74|76|64|88|104|8|200 0|1 0
HWide 12000 300 2000000|-3001 0|1 0|20
HUnit 0..3
HExtra 0..4
HWalk -1 300 SEED 3 1
HWalk -2 500 SEED 4 1
HWalk -6 1000 SEED 4 1
HWalk -4 300 SEED 3 1
`,
	"C18": `
HTool 17 22 2 0 1 1100 0 1
HTool hash=const 16 22 3 0 1
HTool hash=const 17 22|33|212 3 0 1 0 0 1
HTool hash=const 17 33 2 -1 1 0 0 1
HTool hash=const 19|23|27|31 222 2 1 1 0 0 1
HTool hash=const 18|20|26|28 222 3 0 1 0 0 1
HTool hash=const 17 22 2 -3|-2 1 0 1 1
HTool hash=const 17 222 1 0|3|6 1 0 0 1
HTool hash=const 48|50 222|33 0 0 1 0 0 1
HTool hash=const 49 222 0 0|4 1 0 0 1
HTool hash=const 49 22 0 -1 1 0 0 1
HTool hash=const 59|63 2222 0 0 1 0 1 1
HTool hash=const 16|17|48|49 22 2 0 1 60 0 1
HToolLong 16 3000
HToolLong hash=const 17 70000
`,
	"C19": `
HToolQuery hash=const 0|1|8 22|33|222 2 6 4 0
HToolQuery hash=const 3|11 22|33|222 2 6 3 0
HToolQuery hash=const 5|13 22|33|222 2 6 3 0
HToolQuery hash=const 3|5|11|13 22 2 6 212 0 0 1
HToolQuery hash=const 0|2|4|10|12 22|33 2 0 313 0
HToolQuery hash=const 1|3|5|11|13 22 2 6 32|23|33 0
HToolQuery hash=const 3|5 33 2 6 32 0
HToolQuery hash=const 3|5 22 2 6 43 0 0 0 1
HToolQuery hash=const 1|3|5 23 3 6 3 2
HToolQuery hash=const 1|3|11|13 22 1 6 32 0 30 0 1
HToolQuery hash=const 2|12 222 1 0 2 0 60 1 1
`,
	"C20": `
HToolOrder hash=const 0|1|3|13 22|33|23|32 3
HToolOrder hash=const 0|1|11 222|212 3
HToolOrder hash=const 16|17 22|33 3
HToolOrder hash=const 0 22222|3333 2
HToolValue hash=const 0|16 0..3
HToolFull hash=const 0..15
HToolFull hash=const 49|63
HToolMissing hash=const 0|3|5|11|13 0..4
HToolMissing hash=const 0|3|5|11|13 6
HToolMissing hash=const 0|3|5|11|13 5 0|-8|600
`,
}

var thoroughJobs = map[string]string{
	"C01": `
HFind hash=const 22,11|33,12|23,12 1000..1015 0 0 2
HFind hash=const 33,12|22,11|44,13 3 10 0 2
HFind hash=const 333,112|333,121|333,122|344,123|234,123 0 1 0 2
HFind hash=const 3333,1122|3333,1212|3333,1221 2 3 0 2
HFind hash=uf 33,12|333,112 2 0 0 2
HFind hash=const 33,12|333,112|234,123 3 0 1 2
HFind -1|-2|-6|-7 1000 1..4 3 0 4
HFind hash=const -1|-2|-4 60 2..4 6 0 4
HBig -8 40 SEED 3 1 100
HBig -9 60 2|3 3 1 100
HBig -7 2000 SEED 3 1 60
HBig -11 400 SEED 3 1 40
`,
	"C02": `
HWalk hash=const 22,11|33,12|23,12 1000..1015 0 1
HWalk hash=const 333,112|333,121|333,122|344,123|234,123 0 1 1
HWalk hash=const 33,12|44,13|44,23 3 10 1
HWalk hash=const 3333,1122|3333,1212 2 3 1
HWalk hash=uf 33,12|333,112 2 0 1
HWalkString hash=const 333,112|234,123 2 1 3
HWalkString -1|-2 200 2..4 3 5
HWalk -1|-2|-6|-7 1000 2..4 3 1
HBig -9 60 SEED 3 1 50
HBig -7 1500 SEED 3 1 20
`,
	"C03": `
HForms hash=const 22,11|33,12 1000..1015 0 2
HForms hash=const 333,112|333,121|234,123 0 1 3
HForms hash=uf 33,12 3 0 3
HForms -1|-2|-6 200 1..4 3 5
HForms hash=const -2 60 2..4 6 4
`,
	"C04": `
HInsert hash=uf 44|34|43 0|1 0 0
HInsert hash=uf 333|323|332|233 0 0 0
HInsert hash=uf 222 0 1|2 0
HInsert hash=const 33333 0 0 0
HInsert hash=const 2222|3232 1 0 0
`,
	"C05": `
HMinimal hash=uf 33,11 0 11
HMinimal hash=uf 44,12 0 11
HMinimal hash=uf 333,112|333,121|234,123 0 1
HMinimal hash=uf 3333,1121 0 1
HMinimal hash=const 4444,1212 0 1
HMinimalBig -2|-1|-7|-6 1500 2..4 4 0
HMinimalBig -11 400 2..4 4 0|1
HMinimalBig -9 40 2 4 0
HMinimal hash=const -2|-1 60 2|3 6
`,
	"C06": `
HHashSize hash=uf 33,11|33,12|44,13 0 0 1|2
HHashSize hash=const 333,112|333,121 0 0 1|3
HHashSize hash=const -2|-1 40 2|3 6 1|2|3
HHashSize -2|-1|-7 800 2..4 4 1|2|3|100
HReuse hash=uf 33,12 0 0 33,12 0 0 1 0..4
HReuse hash=const 333,121 0 1 333,112 0 1 1 0..4
HReuse -2|-1|-7 300 2|3 4 -2 200 7 4 4 0..4
HMinimalBig -2|-11|-7 800 2 4 1|2|300
`,
	"C07": `
HComplete hash=const 22,11|33,12 1000..1015 0 0 1
HComplete hash=const 333,112|333,121|333,122|234,123 0 2 0|1|2 1
HComplete hash=const 33,12|44,13|44,23 3 10 0|1 1
HComplete hash=const 3333,1122|2222,1111 2 2 0|1 1
HComplete hash=const -1|-2|-4|-6 80 2..4 6 0|1|2 1
HBig -7|-11 800 2 3 2 1
HBig -9 40 2 3 2 1
`,
	"C08": `
HRanked hash=const 22,11|33,12 1000..1015 0 0 1
HRanked hash=const 333,112|333,121|333,122|234,123 2 0 0|1|2 1
HRanked hash=const 33,12|44,13|44,23 2 10 0|1 1
HRanked hash=const 3333,1122|2222,1111|3333,1221 1 0 0 1
HRanked hash=const 22222,11111 1 1 0 1
HRanked hash=const -1|-2|-4|-6 40 2..4 6 0|1 1
HRanked -1|-2|-6 200 2..3 4 0|1 3
HBig -7|-11 600 2 4 4 1
HBig -9 30 2 4 4 3
`,
	"C09": `
HIndex hash=const 22,11|33,12 1000..1015 2 0|1 1
HIndex hash=const 333,112|333,121|333,122|234,123 0 2 0|1 2
HIndex hash=const 33,12|44,13|44,23 3 11 0|1 1
HIndex hash=const 3333,1122 2 3 0|1 2
HIndex hash=const -1|-2 60 2..4 6 0|1 2
HIndex -1|-2|-6|-7 300 2..3 4 0|1 3
HHuge 25|31 0|1 0|1 0|1 0|7|20 424242
HBig -7|-11 600 2 3 24 3
HBig -9 30 2 4 24 7
`,
	"C10": `
HRoundTrip 0..3 5..8 0..2
HRoundTrip 0..3 1000 0..2
HReload hash=const 333,112|333,121|234,123 2 1 2
HReload hash=const 33,12 3 10 1
HReload -1|-2|-6|-7 200 2..4 4 2
HBig -9 30 2 3 33 30
HBig -7 600 2 3 63 40
`,
	"C11": `
HTruncated 0..3 5..8 0..4
HTruncated 0..3 1000 0..4
HFailWrite 0..3 5..8 0..2
HFailWrite 0..3 1000 0..2
`,
	"C12": `
HUtfc 2 0 1 5|40|200|600|1100|3000 1..4
HUtfc 3 0 1 40 2
`,
	"C13": `
HUtfc 5 0 2
HUtfc 3 0 2 5|40|200|1100|3000 1..3
HUtfcKey 4 0 0
HUtfcKey strict=3 hash=uf 2 1..8 1
`,
	"C14": `
HUtfcPieces 2 0 0..2 0..3
HUtfcPieces 3 121|242|363|484|605|726|847|968 0 0..3
HUtfcRefuse 3 0 5|7|8 0
HUtfcRefuse 3 0 0..8 1
`,
	"C15": `
HUtfcHistory 2 0 1..4 1 0 40|600
HUtfcHistory 2 0 7 1 0
HUtfcHistory 1 0 1|2|4 2 0 200
`,
	"C16": `
HReadOnly hash=const 333,112|333,121|234,123 2 1 2
HReadOnly hash=const 33,12 3 10 2
HReadOnly -1|-2|-6|-7 100 2..4 4 2
HReadOnlyLoaded -1|-2 100 2..4 4 3
`,
	"C17": `
HBig -8 40 SEED 3 15 40
HBig -9 80 2|3 3 1 60
HBig -9 80 2 4 14 31
HBig -7 3000 2 3 15 60
HBig -10 40 2 3 15 60
HWide 8300 77|255|256|3000|4095|-255|-256 5000|-3000|-6|-300|63|127 0|1 0|5|20|60|100
HWide 8300 -3000 1..31 0|1 0
HWide 8300 -77 96..127 0|1 20
HWide 12000 300 2000000|-3001|1000000 0|1 0|20|60
HWalk -1|-2|-6|-7 2000 2..3 3 1
`,
	"C18": `
HTool hash=const 16..31 222 2 0 1 0 0 1
HTool hash=const 17|19|23|27 33|212|222 2 0 1 0 0 1
HTool hash=const 48..63 222 0 0 1 0 0 1
HTool hash=const 17 222 2 -3|-2|-1 1 0 1 1
HTool hash=const 16|17|48|49|63 33 2 0 1 200 0 1
HTool hash=const 17 2222 1 0 1 0 0 1
HToolLong 16 70000
`,
	"C19": `
HToolQuery hash=const 0..15 333|233|2222 2 6 4 0
HToolQuery hash=const 1|3|5|11|13 23 2 6 213 0
HToolQuery hash=const 1|3|5|11|13 22 2 6 42 0 200 0 1
`,
	"C20": `
HToolOrder hash=const 0..15 333|232 3
HToolOrder hash=const 0|1 3333 3
HToolValue hash=const 0|16 4..6
HToolFull hash=const 16..63
HToolMissing hash=const 0|3|5|11|13 5 8|200|1000|1028|1500|-100|-500
`,
}

var lexBounds = "Symbolic lexicons: 1-4 keys of up to 3 bytes (every prefix relation named by the job: length digits and shared-prefix digits, each minus one), every byte symbolic over 1..255, the difference between neighbouring siblings drawn from the job's domain, values symbolic over all 31 bits (kind 0), over 0..1 (kind 1) or fixed; hash function: any function (uf), constant (const) or the real one. Concrete lexicons (first parameter negative: generator, size, seed) of up to 1000 keys with symbolic queries, labels or one symbolic value. "

var boundsText = map[string]string{
	"C01": lexBounds + "Queries: up to 5 symbolic bytes 0..255, alone or after every position of the lexicon; at nodes of multi-block lexicons (HBig) one symbolic label.",
	"C02": lexBounds + "At every position of the lexicon (every n-th of multi-block ones) one symbolic label 0..255, so by induction over the length walks of every length; whole strings of up to 4 symbolic bytes.",
	"C03": lexBounds + "Query buffers of up to 5 symbolic bytes with every length limit, symbolic start counts and value variables.",
	"C04": "Up to 4 insertions (5 in the thorough tier) of keys of up to 3 symbolic bytes 0..255 with up to 1 byte beyond the length, values symbolic over 32 bits.",
	"C05": lexBounds + "The whole graph is compared with the right-language classes of the key list; HMinimalBig: concrete lexicons of up to 1500 keys, one symbolic value.",
	"C06": lexBounds + "Initial sizes as listed in the jobs; two or three builds per builder.",
	"C07": lexBounds + "Completions from every position, restarted from every position after every number of keys.",
	"C08": lexBounds + "Completions from every position, restarted from every position after every number of keys.",
	"C09": lexBounds + "Queries of up to 3 symbolic bytes, one symbolic 32-bit number; HHuge: dictionaries in stored form standing for up to 2^30 keys, all key bytes symbolic.",
	"C10": "0-8, 300, 1000 and 70000 units of symbolic content, symbolic read sizes for up to 4 units; whole structures of small lexicons and of multi-block ones.",
	"C11": "Up to 8 units with symbolic content and up to 1000 units; the failing byte is symbolic over the whole stream; end of file, error, error with data, short and transient failures.",
	"C12": "Strings of up to 3 symbolic code points over 0..0x10ffff without surrogates, also after concrete texts of up to 3000 code points; pairs of strings of up to 2 code points.",
	"C13": "Strings of up to 4 symbolic code points (5 in the thorough tier), also after concrete texts of up to 3000 code points.",
	"C14": "Strings of up to 3 symbolic code points, all split points, refusal at any byte.",
	"C15": "Strings of up to 2 symbolic code points after histories with up to 2 symbolic code points (aborted at byte 0..4 or complete, encoded or decoded) and 1100 concrete ones.",
	"C16": lexBounds + "Every query method with a symbolic query string and number; every heap write during a query is checked; interleavings are covered because readers that never write cannot interfere.",
	"C17": "Unit fields: every 32-bit unit, every offset, value and label. HWide: two nodes at a chosen distance up to more than 2^21 units. HBig: concrete lexicons of up to about 80 blocks with one symbolic label at every n-th node. " + lexBounds,
	"C18": "Up to 4 lines with symbolic keys and values (digits) plus up to 200 concrete lines, all option combinations listed in the jobs; one line of 70000 bytes.",
	"C19": "Lexicons of up to 4 symbolic keys (letters case by case) and up to 200 concrete ones; up to 3 queries of up to 3 symbolic bytes (every byte that can stand in a line), also appended to a prefix of a key; every combination of -t -g -r -i listed in the jobs.",
	"C20": "Up to 5 lines in every order with keys that may contain zero bytes; value texts of up to 6 symbolic bytes; a symbolic limit on the size of the dictionary file (every byte at which writing can fail); missing files and directories; dictionaries cut at the listed places.",
}
