ID="p27-empty-answer"; PROP="P27"; MODULE="common"; PKG="pkg/request"
F="common/pkg/request/request.go"
EDITS=[(F,'''	if err := json.Unmarshal(bodyBytes, &data); err != nil {
''','''	if err := json.Unmarshal(bodyBytes, &data); err != nil && !errors.As(err, new(*json.SyntaxError)) {
''')]
NEEDS="an answer of the success status whose content was cut off (or is empty)"
BREAKS="an answer that could not be decoded is handed on as an empty message, and success is reported"
TEST='''
package request

import (
	"net/http"
	"net/http/httptest"
	"testing"

	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
)

func TestVerifSeedCutOff(t *testing.T) {
	content := ""
	ts := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		_, _ = w.Write([]byte(content))
	}))
	defer ts.Close()
	com := NewHttpCommunicator()
	req, err := fcrmessages.EncodeProtocolChangeResponse(true)
	if err != nil {
		t.Fatal(err)
	}
	whole, err := req.FCRMsgToBytes()
	if err != nil {
		t.Fatal(err)
	}
	content = string(whole)
	res, err := com.SendMessage(ts.URL[7:], req)
	if err != nil || res.GetMessageType() != req.GetMessageType() {
		t.Fatal("a whole answer was not handed on", err)
	}
	for _, content = range []string{"", string(whole[:len(whole)/2])} {
		if res, err := com.SendMessage(ts.URL[7:], req); err == nil {
			t.Fatalf("an answer of %d bytes that is no message was handed on: %v", len(content), res)
		}
	}
}
'''
