module verif/harness

go 1.26.0

require (
	github.com/anishathalye/porcupine v1.3.1
	github.com/dgraph-io/badger v1.6.0
	github.com/zhiqiangxu/mondis v0.0.0
	github.com/zhiqiangxu/util v0.0.0-20200325101007-74f059bfa75e
	go.mongodb.org/mongo-driver v1.3.0
	go.uber.org/zap v1.13.0
	pgregory.net/rapid v1.3.0
)

require (
	github.com/AndreasBriese/bbloom v0.0.0-20190306092124-e2d15f34fcf9 // indirect
	github.com/dgryski/go-farm v0.0.0-20190423205320-6a90982ecee2 // indirect
	github.com/dustin/go-humanize v1.0.0 // indirect
	github.com/go-kit/kit v0.9.0 // indirect
	github.com/go-stack/stack v1.8.0 // indirect
	github.com/gogo/protobuf v1.3.1 // indirect
	github.com/golang/protobuf v1.3.2 // indirect
	github.com/golang/snappy v0.0.1 // indirect
	github.com/oklog/run v1.0.0 // indirect
	github.com/pkg/errors v0.8.1 // indirect
	github.com/syndtr/goleveldb v1.0.0 // indirect
	github.com/zhiqiangxu/go-reuseport v0.2.1 // indirect
	github.com/zhiqiangxu/qrpc v0.0.0-20200225135606-e2574f37b838 // indirect
	go.uber.org/atomic v1.5.0 // indirect
	go.uber.org/multierr v1.3.0 // indirect
	go.uber.org/ratelimit v0.1.0 // indirect
	golang.org/x/net v0.0.0-20190620200207-3b0461eec859 // indirect
	golang.org/x/sync v0.0.0-20200317015054-43a5402ce75a // indirect
	golang.org/x/sys v0.0.0-20191128015809-6d18c012aee9 // indirect
)

replace github.com/zhiqiangxu/mondis => /repo
