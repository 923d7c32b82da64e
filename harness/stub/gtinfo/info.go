// Package info stands in for github.com/go-vgo/gt/info, which is not in this
// sandbox's module cache. It only reports host statistics; none of the
// properties checked here depends on it.
package info

func MemPercent() (string, error)                   { return "0", nil }
func MemUsed() (uint64, error)                      { return 0, nil }
func MemTotal() (uint64, error)                     { return 0, nil }
func MemFree() (uint64, error)                      { return 0, nil }
func DiskPercent() (string, error)                  { return "0", nil }
func DiskUsed() (uint64, error)                     { return 0, nil }
func DiskTotal() (uint64, error)                    { return 0, nil }
func DiskFree() (uint64, error)                     { return 0, nil }
func CPUInfo(args ...int) (string, error)           { return "", nil }
func CPUPercent() ([]float64, error)                { return nil, nil }
func Uptime() (uint64, error)                       { return 0, nil }
func PlatformInfo() (string, string, string, error) { return "", "", "", nil }
func Platform() (string, error)                     { return "", nil }
func KernelVer() (string, error)                    { return "", nil }
