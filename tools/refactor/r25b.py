# HVals listing, batch deletion, index loop
f='register/internal/handlers/providers_handler.go'
s=open(f).read()
s=s.replace('rdb.HGetAll(ctx, "provider").Result()','rdb.HVals(ctx, "provider").Result()')
s=s.replace('''	for _, register := range providerRegisters {
''','''	for i := 0; i < len(providerRegisters); i++ {
		register := providerRegisters[i]
''')
i=s.index('	for index := range registers {'); j=s.index('	payload := models.Ack{Status')
s=s[:i]+'''	var ids []string
	for index := range registers {
		ids = append(ids, index)
	}
	if len(ids) > 0 {
		if err := rdb.HDel(ctx, registerTypeProvider, ids...).Err(); err != nil {
			msg := "Unable to delete Redis value"
			log.Error("%s, error: %s", msg, err.Error())
			return op.NewDeleteProviderRegisterDefault(404).WithPayload(&models.Error{Message: &msg})
		}
	}

'''+s[j:]
open(f,'w').write(s)
f='register/internal/handlers/gateways_handler.go'
s=open(f).read()
i=s.index('	registers, err := rdb.HGetAll(ctx, registerTypeGateway)'); j=s.index('	payload := models.Ack{Status')
s=s[:i]+'''	if err := rdb.Del(ctx, registerTypeGateway).Err(); err != nil {
		msg := "Unable to delete Redis value"
		log.Error("%s, error: %s", msg, err.Error())
		return op.NewDeleteGatewayRegisterDefault(404).WithPayload(&models.Error{Message: &msg})
	}

'''+s[j:]
open(f,'w').write(s)
