//go:build go1.27

package kit

// Which scenarios decide which property. Weights balance their share of runs.
func init() {
	register(&property{id: "C01", runs: 20000, scens: []scenario{{"cli-show", 2, scenShow}, {"gui-show", 1, scenGuiShow}}})
	register(&property{id: "C21", runs: 20000, scens: []scenario{{"cli-filter", 1, scenFilter}}})
	register(&property{id: "C02", runs: 20000, scens: []scenario{{"cli-wrong-password", 2, scenWrong}, {"gui-wrong-password", 1, scenGuiWrong}}})
	register(&property{id: "C04", runs: 20000, scens: []scenario{{"cli-tamper", 2, scenTamper}, {"gui-damage", 1, scenGuiDamage}}})
	register(&property{id: "C05", runs: 20000, scens: []scenario{{"cli-damage", 2, scenDamage}, {"gui-damage", 1, scenGuiDamage}}})
	register(&property{id: "C06", runs: 40000, scens: []scenario{{"cli-read-faults", 3, scenReadFault}, {"gui-read-faults", 1, scenGuiRead}}})
	cfgScens := []scenario{{"config-dialogue", 2, scenDialog}, {"config-first-run", 2, scenFirstRun}, {"config-default-vault", 1, scenDefaultVault}, {"config-interrupted", 3, scenCfgCrash}, {"config-history", 2, scenCfgHistory}, {"config-concurrent", 2, scenCfgRace}, {"config-odd-file", 2, scenCfgOdd}}
	register(&property{id: "C11", runs: 80000, scens: []scenario{{"config-interrupted", 4, scenCfgCrash}, {"config-history", 2, scenCfgHistory}, {"config-concurrent", 3, scenCfgRace}}})
	register(&property{id: "C12", runs: 60000, scens: []scenario{{"config-dialogue", 5, scenDialog}, {"config-first-run", 3, scenFirstRun}, {"config-default-vault", 1, scenDefaultVault}, {"config-odd-file", 1, scenCfgOdd}, {"check-history", 3, scenCheckHistory}}})
	upd := []scenario{{"update-good", 2, scenUpdateGood}, {"update-interrupted", 3, scenUpdateFault}, {"update-network", 3, scenUpdateNet}, {"update-bad-release", 2, scenUpdateBad}, {"update-bad-release-faults", 2, scenUpdateBadFault}, {"update-hostile-archive", 2, scenUpdateHostile}, {"update-consent", 2, scenUpdateConsent}, {"update-impostor", 1, scenUpdateImpostor}, {"update-concurrent", 2, scenUpdateRace}}
	pick := func(l []scenario, names ...string) (out []scenario) {
		for _, n := range names {
			for _, s := range l {
				if s.name == n {
					out = append(out, s)
				}
			}
		}
		return
	}
	register(&property{id: "C13", runs: 20000, scens: pick(upd, "update-interrupted", "update-interrupted", "update-concurrent", "update-network", "update-good")})
	register(&property{id: "C14", runs: 20000, scens: pick(upd, "update-bad-release", "update-bad-release-faults", "update-network", "update-interrupted", "update-concurrent", "update-hostile-archive")})
	register(&property{id: "C15", runs: 20000, scens: pick(upd, "update-good", "update-interrupted", "update-network", "update-bad-release", "update-bad-release-faults", "update-concurrent")})
	register(&property{id: "C16", runs: 20000, scens: pick(upd, "update-hostile-archive", "update-hostile-archive", "update-bad-release", "update-good")})
	register(&property{id: "C17", runs: 60000, scens: pick(upd, "update-consent")})
	register(&property{id: "C20", runs: 20000, scens: pick(upd, "update-impostor", "update-impostor", "update-good")})
	chk := []scenario{{"check-history", 4, scenCheckHistory}, {"check-trouble", 2, scenCheckTrouble}, {"check-concurrent", 1, scenCheckRace}}
	register(&property{id: "C18", runs: 20000, scens: chk})
	register(&property{id: "C19", runs: 20000, scens: append(pick(chk, "check-history", "check-trouble", "check-trouble", "check-trouble"), pick(upd, "update-network", "update-good")...)})
	gui := []scenario{{"gui-navigate", 4, scenGuiNav}, {"gui-lock", 2, scenGuiLock}, {"gui-keys", 2, scenGuiKeys}, {"gui-read-faults", 1, scenGuiRead}, {"gui-start", 1, scenGuiStart}, {"gui-mask", 1, scenGuiMask}}
	register(&property{id: "C03", runs: 12000, scens: []scenario{{"gui-lock", 2, scenGuiLock}, {"gui-navigate", 1, scenGuiNav}}})
	register(&property{id: "C09", runs: 12000, scens: []scenario{{"gui-navigate", 4, scenGuiNav}, {"gui-lock", 1, scenGuiLock}, {"gui-mask", 1, scenGuiMask}}})
	register(&property{id: "C10", runs: 14000, scens: []scenario{{"gui-navigate", 1, scenGuiNav}}})
	register(&property{id: "C22", runs: 20000, scens: []scenario{{"gui-update-check", 1, scenGuiCheck}}})
	register(&property{id: "C23", runs: 20000, scens: []scenario{{"gui-keys", 5, scenGuiKeys}, {"gui-navigate", 2, scenGuiNav}, {"gui-mask", 1, scenGuiMask}}})
	all := append([]scenario{{"cli-vault-session", 6, scenVaultMix}, {"cli-bad-profile", 2, scenBadProfile}}, cfgScens...)
	all = append(all, upd...)
	all = append(all, chk...)
	all = append(all, gui...)
	register(&property{id: "C07", runs: 20000, scens: all})
	register(&property{id: "C08", runs: 20000, scens: append([]scenario{{"cli-vault-session", 6, scenVaultMix}}, append(chk, gui...)...)})
	register(&property{id: "C24", runs: 20000, scens: all})
}
