package c19

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"github.com/schwarzlichtbezirk/wpk/zzverif/vh"
)

// tree lists everything under a directory with the content of files.
func tree(root string) map[string]string {
	m := map[string]string{}
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		r, _ := filepath.Rel(root, p)
		if fi.IsDir() {
			m[r+"/"] = ""
		} else {
			b, _ := os.ReadFile(p)
			m[r] = string(b)
		}
		return nil
	})
	return m
}

// outside tells whether walking the name ever leaves the directory it starts in.
func outside(k string) bool {
	if k == "" || k[0] == '/' {
		return true
	}
	d := 0
	for _, s := range strings.Split(k, "/") {
		switch s {
		case "", ".":
		case "..":
			d--
			if d < 0 {
				return true
			}
		default:
			d++
		}
	}
	return false
}

func Test(t *testing.T) {
	vh.Run(t, "packages of up to 8 files extracted by the built command into a scratch directory five levels deep, with ordinary names and with names that lead outside by at most three levels or are absolute; everything around the destination compared before and after; non-trivial with at least one name that leads outside", func(h *vh.H) {
		dir := h.Dir()
		bin := filepath.Join(dir, "extract.bin")
		c := exec.Command("go", "build", "-o", bin, "./cmd/extract")
		c.Dir = h.Repo
		if b, err := c.CombinedOutput(); err != nil {
			panic(fmt.Sprintf("building the command: %v\n%s", err, b))
		}
		r := h.R
		for n := 0; h.Left(); n++ {
			top := filepath.Join(dir, fmt.Sprintf("t%d", n))
			cwd := filepath.Join(top, "1/2/3/4/cwd")
			dst := filepath.Join(top, "1/2/3/4/dst")
			if err := os.MkdirAll(cwd, 0o755); err != nil {
				panic(err)
			}
			os.MkdirAll(dst, 0o755)
			os.WriteFile(filepath.Join(top, "1/2/3/4/near"), []byte("near"), 0o644)
			os.WriteFile(filepath.Join(top, "1/2/x"), []byte("far"), 0o644)
			bads := []string{"../x", "../../x", "../dst2/x", "a/../../x", "..", "../near", "../../../x", "a/b/../../../near", "/x", filepath.Join(top, "1/abs"), "a/./../../near", "./../near", "../dstx", "b//../../near", ".././near"}
			names := vh.Names(r, 1+r.Intn(7))
			good := len(names)
			nb := -1
			if r.Intn(3) > 0 {
				nb = r.Intn(len(names) + 1)
				names = append(names[:nb:nb], append([]string{bads[r.Intn(len(bads))]}, names[nb:]...)...)
				good = nb
			} else if r.Intn(4) == 0 {
				// unusual names that stay inside
				i := r.Intn(len(names))
				names[i] = []string{"q/../r", "./q", "q//r", "q/./r", "..q", "q..", "...", "q\\..\\..\\r"}[r.Intn(8)]
			} else if r.Intn(3) == 0 {
				// names that read like something to be replaced
				i := r.Intn(len(names))
				names[i] = []string{"$ZZUP/near", "${ZZUP}/near", "%ZZUP%/near", "$ZZABS", "${ZZABS}", "%ZZABS%", "zz/$ZZUP2/near", "~/near", "%2e%2e/near", "..%2fnear", "&#46;./near", "~", "..;/near", "\xc0\xae\xc0\xae/near", "\uff0e\uff0e/near", ".. /near", " ../near"}[r.Intn(17)]
			}
			for i, k := range names {
				if s := strings.ReplaceAll(k, "\\", "/"); i < good && (outside(s) || filepath.Clean(s) != s) {
					good = i
				}
			}
			var data []byte
			var l []vh.Ent
			body := map[string]string{}
			for _, k := range names {
				b := h.Bytes([]int{0, 1, 10, 500}[r.Intn(4)])
				l = append(l, vh.Ent{k, vh.Entry(k, uint64(64+len(data)), uint64(len(b)), vh.MoreTags(r)...)})
				data = append(data, b...)
				body[k] = string(b)
			}
			pkg := filepath.Join(top, "p.wpk")
			os.WriteFile(pkg, vh.Pkg(data, nil, l), 0o644)
			before := tree(top)
			d := []string{dst, dst + "/", "../dst", "."}[r.Intn(4)]
			md := filepath.Join("1/2/3/4", "dst")
			if d == "." {
				md = "1/2/3/4/cwd"
			}
			args := []string{"-src", pkg, "-dst", d, "-pm", []string{"bulk", "mmap", "fsys"}[r.Intn(3)]}
			if r.Intn(2) == 0 {
				args = append(args, "-ft")
			}
			h.Case(nb >= 0, func() string {
				return fmt.Sprintf("extracting a package with names %q, arguments %q", names, args[2:])
			}, func() string {
				c := exec.Command(bin, args...)
				c.Dir = cwd
				c.Env = append(os.Environ(), "ZZUP=..", "ZZUP2=../..", "ZZABS="+filepath.Join(top, "1/abs"), "HOME="+filepath.Join(top, "1/2"))
				var out bytes.Buffer
				c.Stdout, c.Stderr = &out, &out
				err := c.Run()
				if err != nil {
					return fmt.Sprintf("the command fails: %v\n%s", err, out.String())
				}
				after := tree(top)
				var ks []string
				for k := range after {
					ks = append(ks, k)
				}
				for k := range before {
					if _, ok := after[k]; !ok {
						return fmt.Sprintf("%q is gone", k)
					}
				}
				sort.Strings(ks)
				for _, k := range ks {
					if strings.HasPrefix(k, md+"/") {
						continue
					}
					if b, ok := before[k]; !ok || b != after[k] {
						return fmt.Sprintf("%q is made or changed, outside of %q", k, md)
					}
				}
				for i, k := range names {
					if i >= good || filepath.Clean(k) != k {
						if i >= good {
							break
						}
						continue
					}
					b, ok := after[md+"/"+k]
					if !ok || b != body[k] {
						return fmt.Sprintf("file %q is not extracted as it is (found %v, %d bytes, want %d)\n%s", k, ok, len(b), len(body[k]), out.String())
					}
				}
				return ""
			})
			os.RemoveAll(top)
		}
	})
}
