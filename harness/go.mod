module harness

go 1.26.5

require (
	github.com/matehaxor03/holistic_common v0.0.73
	github.com/matehaxor03/holistic_json v0.0.0
)

replace github.com/matehaxor03/holistic_json => /repo
