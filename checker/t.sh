cd /verif/checker; export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local; go build -o bin/vc . && ./bin/vc "$@"
