module verifharness

go 1.23.0

require (
	github.com/breml/logstash-config v0.0.0
	github.com/pkg/errors v0.9.1
	pgregory.net/rapid v1.3.0
)

replace github.com/breml/logstash-config => /repo
