package main

// Budgets: runs per worker process (8 processes; as many again for the race build).
// The time caps only guard against slow machines.
var props = map[string]propConf{
	"C01": {quickRuns: 60000, quickRace: 11000, thoroughRuns: 400000, thoroughRace: 60000},
	"C02": {quickRuns: 80000, quickRace: 0, thoroughRuns: 400000, thoroughRace: 0},
	"C03": {quickRuns: 70000, quickRace: 14000, thoroughRuns: 400000, thoroughRace: 60000},
	"C04": {quickRuns: 100000, quickRace: 0, thoroughRuns: 400000, thoroughRace: 0},
	"C05": {quickRuns: 150000, quickRace: 30000, thoroughRuns: 600000, thoroughRace: 80000},
	"C06": {quickRuns: 60000, quickRace: 0, thoroughRuns: 600000, thoroughRace: 0},
	"C07": {quickRuns: 80000, quickRace: 10000, thoroughRuns: 400000, thoroughRace: 60000},
	"C08": {quickRuns: 80000, quickRace: 15000, thoroughRuns: 400000, thoroughRace: 60000},
	"C09": {quickRuns: 16000, quickRace: 0, thoroughRuns: 200000, thoroughRace: 0},
	"C10": {quickRuns: 24000, quickRace: 0, thoroughRuns: 200000, thoroughRace: 0},
	"C11": {quickRuns: 16000, quickRace: 0, thoroughRuns: 200000, thoroughRace: 0},
	"C12": {quickRuns: 60000, quickRace: 5000, thoroughRuns: 200000, thoroughRace: 10000},
	"C13": {quickRuns: 16000, quickRace: 0, thoroughRuns: 100000, thoroughRace: 0},
	"C14": {quickRuns: 2000, quickRace: 800, thoroughRuns: 40000, thoroughRace: 8000, cross: true},
	"C15": {quickRuns: 1200, quickRace: 800, thoroughRuns: 30000, thoroughRace: 8000},
	"C16": {quickRuns: 900, quickRace: 0, thoroughRuns: 30000, thoroughRace: 0, cross: true},
	"C17": {quickRuns: 1800, quickRace: 1200, thoroughRuns: 40000, thoroughRace: 12000, cross: true},
	"C18": {quickRuns: 8000, quickRace: 0, thoroughRuns: 100000, thoroughRace: 0},
	"C19": {quickRuns: 2000, quickRace: 0, thoroughRuns: 30000, thoroughRace: 0},
}

func init() {
	for id, p := range props {
		p.quickS, p.thoroughS = 120, 600
		props[id] = p
	}
}
