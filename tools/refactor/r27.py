import sys
p=sys.argv[1]+'/common/pkg/request/request.go' if len(sys.argv)>1 else 'common/pkg/request/request.go'
s=open(p).read()
i=s.index("// GetJSON request Get JSON")
s=s[:i]+'''
const answerTimeout = 3 * time.Minute

// do makes the exchange and returns the body of a successful answer.
func (c *HttpCommunicator) do(op string, req *http.Request) (body []byte, err error) {
	r, err := c.httpClient.Do(req)
	if err != nil {
		return nil, err
	}
	defer func() {
		if cerr := r.Body.Close(); cerr != nil {
			logging.Error("can't close the body: %s", cerr.Error())
		}
	}()
	body, err = ioutil.ReadAll(r.Body)
	if err != nil {
		return nil, err
	}
	if !succeeded(r) {
		return nil, errors.New(op + " receive error code: " + r.Status)
	}
	return body, nil
}

func succeeded(r *http.Response) bool {
	switch r.StatusCode {
	case http.StatusOK:
		return true
	default:
		return false
	}
}

func post(url string, content interface{}) (*http.Request, error) {
	encoded, err := json.Marshal(content)
	if err != nil {
		return nil, err
	}
	req, err := http.NewRequest(http.MethodPost, url, bytes.NewBuffer(encoded))
	if err != nil {
		return nil, err
	}
	req.Header.Set("Content-Type", "application/json")
	return req, nil
}

// GetJSON request Get JSON
func (c *HttpCommunicator) GetJSON(url string) ([]byte, error) {
	c.Lock()
	defer c.Unlock()
	req, err := http.NewRequest(http.MethodGet, url, nil)
	if err != nil {
		return nil, err
	}
	return c.do("GetJSON", req)
}

// SendJSON request Send JSON
func (c *HttpCommunicator) SendJSON(url string, data interface{}) error {
	c.Lock()
	defer c.Unlock()
	req, err := post(url, data)
	if err != nil {
		return fmt.Errorf("SendJSON error: %s", err.Error())
	}
	r, err := c.httpClient.Do(req)
	if err != nil {
		return err
	}
	defer r.Body.Close()
	if r.StatusCode/100 != 2 {
		return fmt.Errorf("SendJSON receive error code: %s", r.Status)
	}
	return nil
}

// SendMessage request Send JSON
func (c *HttpCommunicator) SendMessage(url string, message *fcrmessages.FCRMessage) (*fcrmessages.FCRMessage, error) {
	c.Lock()
	defer c.Unlock()
	req, err := post(fmt.Sprintf("http://%s/v1", url), message)
	if err != nil {
		return nil, fmt.Errorf("SendMessage error: %s", err.Error())
	}
	body, err := c.do("SendMessage", req)
	if err != nil {
		return nil, err
	}
	return decode(body)
}

func decode(body []byte) (*fcrmessages.FCRMessage, error) {
	data := new(fcrmessages.FCRMessage)
	if err := json.Unmarshal(body, data); err != nil {
		return nil, errors.New("SendMessage error, can't unmarshal request body")
	}
	return data, nil
}

// Delete request to delete a resource
func (c *HttpCommunicator) Delete(url string) error {
	c.Lock()
	defer c.Unlock()
	req, err := http.NewRequest(http.MethodDelete, url, nil)
	if err != nil {
		return err
	}
	_, err = c.do("Delete", req)
	return err
}
'''
s=s.replace("&http.Client{Timeout: 180 * time.Second}","newClient(answerTimeout)")
s+='''
func newClient(timeout time.Duration) *http.Client {
	client := &http.Client{}
	client.Timeout = timeout
	return client
}
'''
open(p,'w').write(s)
p=p.replace('request/request.go','fcrrestserver/server.go')
s=open(p).read()
i=s.index("	content, err := ioutil.ReadAll(r.Body)")
s=s[:i]+'''	message, reason := readMessage(r)
	if message == nil {
		rest.Error(w, reason, http.StatusBadRequest)
		return
	}
	if handler, ok := s.handlers[listenAddr][message.GetMessageType()]; ok && handler != nil {
		handler(w, message)
		return
	}
	logging.Warn("Client Request: Unknown message type: %d", message.GetMessageType())
	rest.Error(w, "Unknown message type", http.StatusBadRequest)
}

func readMessage(r *rest.Request) (*fcrmessages.FCRMessage, string) {
	defer r.Body.Close()
	content, err := ioutil.ReadAll(r.Body)
	if err != nil {
		logging.Error("Error reading request: %s.", err.Error())
		return nil, "Error reading request"
	}
	if len(content) == 0 {
		logging.Error("Error empty request")
		return nil, "Error empty request"
	}
	message, err := fcrmessages.FCRMsgFromBytes(content)
	if err != nil {
		logging.Error("Failed to decode payload: %s.", err.Error())
		return nil, "Failed to decode payload: " + err.Error()
	}
	return message, ""
}
'''
open(p,'w').write(s)
