package sim

import "strconv"

// The environment of the simulated machine. With salt 0 it is empty and fixed; any other
// salt gives every variable, name and number a value of its own.

func salt() uint64 {
	if R == nil {
		return InitMapSeed // package initialisation
	}
	return R.Salt
}

var envValues = []string{"", "1", "0", "true", "false", "dumb", "xterm-256color", "C", "en_US.UTF-8", "tr_TR.UTF-8", "production", "development", "on", "debug", "never", "8", "100", "/x"}

// EnvOf looks a variable up.
func EnvOf(k string) (string, bool) {
	s := salt()
	if s == 0 {
		return "", false
	}
	h := mix(s, hashOf(k))
	if h%3 == 0 {
		return "", false
	}
	return envValues[h/3%uint64(len(envValues))], true
}

func hashOf(k string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(k); i++ {
		h = (h ^ uint64(k[i])) * 1099511628211
	}
	return h
}

// EnvList gives some variables.
func EnvList() (l []string) {
	for _, k := range []string{"HOME", "LANG", "TERM", "PATH", "USER", "DEBUG", "NO_COLOR", "COLUMNS", "TZ", "CI", "NODE_ENV", "MOLE"} {
		if v, ok := EnvOf(k); ok {
			l = append(l, k+"="+v)
		}
	}
	return l
}

// EnvNum gives a number in [0,n) that differs between environments; def for the fixed one.
func EnvNum(what string, def, n int) int {
	s := salt()
	if s == 0 {
		return def
	}
	return int(mix(s, hashOf(what)) % uint64(n))
}

// EnvName gives a name that differs between environments.
func EnvName(what, def string) string {
	if salt() == 0 {
		return def
	}
	return def + strconv.Itoa(EnvNum(what, 0, 50))
}
