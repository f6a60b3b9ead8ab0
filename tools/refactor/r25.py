import re
# providers: store helper type, decode helper, single result variable
f='register/internal/handlers/providers_handler.go'
s=open(f).read()
opts=re.search(r'redis\.NewClient\(&redis\.Options\{.*?\n\t\}\)\n\tdefer rdb\.Close\(\)',s,re.S).group(0)
s=s.replace('	rdb := '+opts,'	rdb := openStore()\n	defer func() { _ = rdb.Close() }()')
s=s.replace('''		registerData := models.ProviderRegister{}
		if unmarshallErr := json.Unmarshal([]byte(register), &registerData); unmarshallErr != nil {
			log.Error("inside GetProviderRegisters - can't unmarshall JSON: %s", unmarshallErr.Error())
			continue
		}
		payload = append(payload, &registerData)
		debugOutputSb.WriteString(fmt.Sprintf("%s, ", registerData.NodeID))
''','''		if registerData, unmarshallErr := decodeProvider(register); unmarshallErr == nil {
			payload = append(payload, registerData)
		} else {
			log.Error("inside GetProviderRegisters - can't unmarshall JSON: %s", unmarshallErr.Error())
		}
''')
s=s.replace('	var debugOutputSb strings.Builder\n','').replace('	"fmt"\n','').replace('	"strings"\n','')
i=s.index('	registerData := models.ProviderRegister{}\n	if unm'); j=s.index('// DeleteProviderRegisters deletes')
s=s[:i]+'''	payload, err := decodeProvider(register)
	if err != nil {
		return providerLookupFailed("can't unmarshall JSON", err)
	}
	return op.NewGetProviderRegistersByIDOK().WithPayload(payload)
}

func providerLookupFailed(msg string, err error) middleware.Responder {
	log.Error("inside GetProviderRegisterByID - %s: %s", msg, err.Error())
	return op.NewGetProviderRegistersByIDDefault(404).WithPayload(&models.Error{Message: &msg})
}

func decodeProvider(text string) (*models.ProviderRegister, error) {
	register := new(models.ProviderRegister)
	if err := json.Unmarshal([]byte(text), register); err != nil {
		return nil, err
	}
	return register, nil
}

func openStore() *redis.Client {
	return redis.NewClient(&redis.Options{
		Addr:     apiconfig.GetString("REDIS_URL") + ":" + apiconfig.GetString("REDIS_PORT"),
		Password: apiconfig.GetString("REDIS_PASSWORD"),
		DB:       0, // use default DB
	})
}

'''+s[j:]
open(f,'w').write(s)
f='register/internal/handlers/gateways_handler.go'
s=open(f).read()
s=s.replace('''	err := rdb.HSet(ctx, "gateway", register.NodeID, register).Err()
	if err != nil {
		msg := "Unable to set Redis value"
		log.Error("%s, error in AddGatewayRegister: %s", msg, err.Error())
		return op.NewAddGatewayRegisterDefault(404).WithPayload(&models.Error{Message: &msg})
	}

	log.Info("register created a gateway record with ID: %s", params.Register.NodeID)

	// Response
	return op.NewAddGatewayRegisterOK().WithPayload(register)
''','''	var answer middleware.Responder
	if err := save(ctx, rdb, gatewayTable, register.NodeID, register); err == nil {
		log.Info("register created a gateway record with ID: %s", params.Register.NodeID)
		answer = op.NewAddGatewayRegisterOK().WithPayload(register)
	} else {
		msg := "Unable to set Redis value"
		log.Error("%s, error in AddGatewayRegister: %s", msg, err.Error())
		answer = op.NewAddGatewayRegisterDefault(404).WithPayload(&models.Error{Message: &msg})
	}
	return answer
''')
s+='''
const gatewayTable = "gateway"

func save(ctx context.Context, rdb *redis.Client, table, id string, record interface{}) error {
	if _, err := rdb.HSet(ctx, table, id, record).Result(); err != nil {
		return err
	}
	return nil
}

func clear(ctx context.Context, rdb *redis.Client, table string, entries map[string]string) error {
	for index := range entries {
		if err := rdb.HDel(ctx, table, index).Err(); err != nil {
			return fmt.Errorf("entry %s: %w", index, err)
		}
		log.Info("register deleted a gateway record with ID: %s", index)
	}
	return nil
}
'''
i=s.index('	for index := range registers {'); j=s.index('	payload := models.Ack{Status')
s=s[:i]+'''	if err := clear(ctx, rdb, registerTypeGateway, registers); err != nil {
		msg := "Unable to delete Redis value"
		log.Error("%s, error in DeleteGatewayRegisters: %s", msg, err.Error())
		return op.NewDeleteGatewayRegisterDefault(404).WithPayload(&models.Error{Message: &msg})
	}

'''+s[j:]
s=s.replace('''	payload := []*models.GatewayRegister{}
''','''	payload := make([]*models.GatewayRegister, 0, len(gatewayRegisters))
''')
s=s.replace('''	for _, g := range gatewayRegisters {
		registerData := models.GatewayRegister{}
''','''	for id := range gatewayRegisters {
		g := gatewayRegisters[id]
		var registerData models.GatewayRegister
''')
s=s.replace('''	payload := registerData
	return op.NewGetGatewayRegistersByIDOK().WithPayload(&payload)''','''	response := op.NewGetGatewayRegistersByIDOK()
	response.SetPayload(&registerData)
	return response''')
open(f,'w').write(s)
f='register/restapi/configure_register.go'
s=open(f).read()
s=s.replace('''gateway.AddGatewayRegisterHandlerFunc(func(params gateway.AddGatewayRegisterParams) middleware.Responder {
		return handlers.AddGatewayRegister(params)
	})''','''gateway.AddGatewayRegisterHandlerFunc(handlers.AddGatewayRegister)''')
i=s.index('	// Register\n'); j=s.index('	api.PreServerShutdown')
body=s[i:j]
s=s[:i]+'	configureProviders(api)\n\n'+s[j:]+'''
func configureProviders(api *operations.RegisterAPI) {
'''+body+'}\n'
open(f,'w').write(s)
