def sub(f,*prs):
    s=open(f).read()
    for a,b in prs:
        assert a in s,(f,a)
        s=s.replace(a,b,1)
    open(f,'w').write(s)
import re
for m,im in (('gateway','gateway'),('provider','provider')):
    f=m+'/config/config.go'
    s=open(f).read()
    i=s.index('	registerRefreshDuration, err :='); j=s.index('	return settings.AppSettings{')
    s=s[:i]+s[j:]
    for var,key,d in (('registerRefreshDuration','REGISTER_REFRESH_DURATION','DefaultRegisterRefreshDuration'),('tcpInactivityTimeout','TCP_INACTIVITY_TIMEOUT','DefaultTCPInactivityTimeout'),('tcpLongInactivityTimeout','TCP_LONG_INACTIVITY_TIMEOUT','DefaultLongTCPInactivityTimeout')):
        s=s.replace(' '+var+',',' durationOr(conf, "%s", settings.%s),'%(key,d))
    for var,key,d in (('defaultSearchPrice','SEARCH_PRICE','1_000_000_000_000_000'),('defaultOfferPrice','OFFER_PRICE','1_000_000_000_000_000'),('defaultTopUpAmount','TOPUP_AMOUNT','100_000_000_000_000_000')):
        s=s.replace(' '+var+',',' amountOr(conf, "%s", %s),'%(key,d))
    s=s.replace('conf.GetString("IP") + ":" + conf.GetString("BIND_GATEWAY_API")','fmt.Sprintf("%s:%s", conf.GetString("IP"), conf.GetString("BIND_GATEWAY_API"))')
    s=s.replace('conf.GetString("IP") + ":" + conf.GetString("BIND_REST_API")','hostPort(conf, "BIND_REST_API")')
    s=s.replace('conf.GetString("IP") + ":" + conf.GetString("NETWORK_CLIENT_INFO")','fmt.Sprintf("%s:%s", conf.GetString("IP"), conf.GetString("NETWORK_CLIENT_INFO"))')
    s=s.replace('return settings.AppSettings{','result := settings.AppSettings{').replace('	}\n}\n\nfunc defineFlags','	}\n	if result.LogLevel == "" {\n		logging.Warn("no log level")\n	}\n	return result\n}\n\nfunc defineFlags')
    s+='''
func durationOr(conf *viper.Viper, key string, fallback time.Duration) time.Duration {
	d, err := time.ParseDuration(conf.GetString(key))
	if err == nil {
		return d
	}
	return fallback
}

func amountOr(conf *viper.Viper, key string, fallback int64) *big.Int {
	text := strings.TrimSpace(conf.GetString(key))
	amount := new(big.Int)
	if _, ok := amount.SetString(text, 0); !ok {
		return big.NewInt(fallback)
	}
	return amount
}

func hostPort(conf *viper.Viper, key string) string {
	return conf.GetString("IP") + ":" + conf.GetString(key)
}
'''
    s=s.replace('"math/big"','"fmt"\n\t"math/big"',1)
    open(f,'w').write(s)
sub('gateway/cmd/gateway/main.go',
('	c.P2PServer = fcrp2pserver.NewFCRP2PServer(\n		[]string{appSettings.BindGatewayAPI, appSettings.BindProviderAPI},','	listen := []string{appSettings.BindGatewayAPI}\n	listen = append(listen, appSettings.BindProviderAPI)\n	limit := appSettings.TCPInactivityTimeout\n	c.P2PServer = fcrp2pserver.NewFCRP2PServer(\n		listen,'),
('		appSettings.TCPInactivityTimeout)','		limit)'))
sub('client/pkg/fcrclient/builder.go',('	g := ClientSettings{}\n	g.establishmentTTL = f.establishmentTTL\n','	g := ClientSettings{establishmentTTL: f.establishmentTTL}\n'),
('''	if f.clientID == nil {
		logging.Info("Settings: No Client ID set. Generating random client ID")
		// TODO replace once NewRandomNodeID becomes available.
		g.clientID = nodeid.NewRandomNodeID()
	} else {
		g.clientID = f.clientID
	}
''','''	id := f.clientID
	if id == nil {
		logging.Info("Settings: No Client ID set. Generating random client ID")
		id = nodeid.NewRandomNodeID()
	}
	g.clientID = id
'''),
('''	f.retrievalPrivateKey = rPkey
	f.retrievalPrivateKeyVer = ver
''','''	f.retrievalPrivateKeyVer, f.retrievalPrivateKey = ver, rPkey
'''))
sub('common/pkg/logging/logging.go',('''	level, err := zerolog.ParseLevel(logLevel)
	if err != nil {
		log.Error().Err(err).Msg("can't parse log level")
		level = zerolog.InfoLevel
		log.Warn().Msgf("using level '%v' as default", level)
	}
	zerolog.SetGlobalLevel(level)
''','''	if level, err := zerolog.ParseLevel(logLevel); err == nil {
		zerolog.SetGlobalLevel(level)
		return
	}
	zerolog.SetGlobalLevel(zerolog.InfoLevel)
'''))
