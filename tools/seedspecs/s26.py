ID="p26-sigalg-truncated"; PROP="P26"; MODULE="provider"; PKG="config"
EDITS=[("provider/config/config.go",'strconv.ParseUint(value, 10, 8)','strconv.ParseUint(value, 10, 16)')]
NEEDS="a signature algorithm above 255 in the provider's configuration"
BREAKS="a number that does not fit the setting is silently cut off (257 becomes 1) instead of being reported"
TEST='''
package config

import (
	"testing"

	"github.com/spf13/viper"
)

func TestVerifSeed(t *testing.T) {
	for _, text := range []string{"1", "255", "256", "257", "-1", "x"} {
		conf := viper.New()
		conf.Set("PROVIDER_SIG_ALG", text)
		panicked, got := false, uint8(0)
		func() {
			defer func() {
				if recover() != nil {
					panicked = true
				}
			}()
			got = Map(conf).ProviderSigAlg
		}()
		bad := text != "1" && text != "255"
		if panicked != bad {
			t.Fatalf("%s: reported %v, value %d", text, panicked, got)
		}
	}
}
'''
