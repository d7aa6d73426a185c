module verif/harness

go 1.24.0

require (
	github.com/klauspost/cpuid/v2 v2.4.0
	github.com/pjbgf/sha1cd v0.0.0
	golang.org/x/sys v0.41.0
	pgregory.net/rapid v1.3.0
)

replace github.com/pjbgf/sha1cd => /repo

replace github.com/klauspost/cpuid/v2 => /opt/vp/go/pkg/mod/github.com/klauspost/cpuid/v2@v2.4.0

replace golang.org/x/sys => /opt/vp/go/pkg/mod/golang.org/x/sys@v0.41.0

replace pgregory.net/rapid => /root/go/pkg/mod/pgregory.net/rapid@v1.3.0
