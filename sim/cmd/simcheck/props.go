package main

var props = map[string]propSpec{
	"M01": {scns: []string{"tcpm"}, quick: 400000, thor: 20000000},
	"M02": {scns: []string{"tcpm"}, quick: 400000, thor: 20000000},
	"M03": {scns: []string{"tcpm"}, quick: 400000, thor: 20000000},
	"M04": {scns: []string{"tcpm", "serm"}, quick: 200000, thor: 20000000},
	"M05": {scns: []string{"tcpm", "serm"}, quick: 300000, thor: 20000000},
	"M06": {scns: []string{"serm"}, quick: 200000, thor: 20000000},
	"M07": {scns: []string{"serm"}, quick: 200000, thor: 20000000},
	"M08": {scns: []string{"tcpm", "serm"}, quick: 200000, thor: 20000000},
	"M09": {scns: []string{"tcpm", "serm"}, quick: 200000, thor: 20000000},
	"S01": {scns: []string{"slave"}, quick: 200000, thor: 20000000},
	"S02": {scns: []string{"slave"}, quick: 200000, thor: 20000000},
	"S03": {scns: []string{"slave"}, quick: 200000, thor: 20000000},
	"S04": {scns: []string{"slave"}, quick: 200000, thor: 20000000},
	"S05": {scns: []string{"slave"}, quick: 200000, thor: 20000000},
	"S06": {scns: []string{"slave"}, quick: 200000, thor: 20000000},
	"S09": {scns: []string{"cycle"}, quick: 200000, thor: 20000000},
	"S07": {scns: []string{"slave"}, quick: 200000, thor: 20000000},
	"R01": {scns: []string{"special"}, quick: 200000, thor: 20000000},
	"R02": {scns: []string{"special"}, quick: 200000, thor: 20000000},
	"R03": {scns: []string{"special"}, quick: 200000, thor: 20000000},
	"N02": {scns: []string{"args"}, quick: 200000, thor: 20000000},
	"L01": {scns: []string{"args"}, quick: 100000, thor: 20000000},
	"D01": {scns: []string{"defaults"}, quick: 100000, thor: 10000000},
	"N03": {scns: []string{"args"}, quick: 200000, thor: 20000000},
	"E01": {scns: []string{"e2e"}, quick: 200000, thor: 20000000},
	"X01": {scns: []string{"mix", "mix", "mix", "mix", "tcpm", "serm", "slave", "special", "e2e", "cycle"}, quick: 300000, thor: 10000000, race: true},
	"S08": {scns: []string{"slave"}, quick: 200000, thor: 20000000},
}
