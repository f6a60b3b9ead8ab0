p='gateway/internal/reputation/reputation_store.go'
s=open(p).read()
s=s.replace('''	if newVal > clientMaxReputation {
		newVal = clientMaxReputation
	} else if newVal < clientMinReputaiton {
		newVal = clientMinReputaiton
	}
''','''	if newVal > clientMaxReputation {
		newVal = clientMaxReputation
	}
	if newVal < clientMinReputaiton {
		newVal = clientMinReputaiton
	}
''')
s=s.replace('''	if val > clientMaxReputation {
		val = clientMaxReputation
	} else if val < clientMinReputaiton {
		val = clientMinReputaiton
	}''','''	switch {
	case val >= clientMaxReputation:
		val = clientMaxReputation
	case val <= clientMinReputaiton:
		val = clientMinReputaiton
	}''')
open(p,'w').write(s)
