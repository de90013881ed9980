PRE='''package service

import (
%s
)

// a private copy of the sample vault (password "freddy")
func demoVault(t *testing.T) string {
	dst := filepath.Join(os.Getenv("DEMO_SCRATCH"), "vault")
	os.RemoveAll(dst)
	src := filepath.Join(os.Getenv("DEMO_REPO"), "assets", "onepassword_data")
	if err := os.MkdirAll(filepath.Join(dst, "default"), 0755); err != nil {
		t.Fatal(err)
	}
	names, _ := filepath.Glob(filepath.Join(src, "default", "*"))
	for _, n := range names {
		b, err := os.ReadFile(n)
		if err != nil {
			continue
		}
		if err := os.WriteFile(filepath.Join(dst, "default", filepath.Base(n)), b, 0644); err != nil {
			t.Fatal(err)
		}
	}
	return dst
}

type demoApp struct {
	vault  *domain.Vault
	facade facade.VaultFacade
}

func demoOpen(path string) *demoApp {
	profiles := file.NewFileProfileRepo()
	items := file.NewFileItemRepo()
	keys := coreservice.NewDfltKeyService(pbkdf2.NewPbkdf2CryptoUtils(), profiles)
	configs := coreservice.NewDfltConfigService(file.NewFileConfigRepo(filepath.Join(os.Getenv("DEMO_SCRATCH"), "conf")))
	f := facade.NewDfltVaultFacade(configs, coreservice.NewDfltItemService(keys, items), keys, coreservice.NewDfltVaultService(items, profiles))
	return &demoApp{domain.NewVault(path), f}
}
'''
IMP=['"os"','"path/filepath"','"testing"']
MODI=['"github.com/mashmb/1pass/1pass-core/core/domain"','"github.com/mashmb/1pass/1pass-core/core/facade"','coreservice "github.com/mashmb/1pass/1pass-core/core/service"','"github.com/mashmb/1pass/1pass-parse/repo/file"','"github.com/mashmb/1pass/1pass-parse/util/pbkdf2"']
def pre(*extra):
    return PRE % "\n".join("\t"+x for x in sorted(IMP+list(extra))+[""]+MODI)
