ID="p15-alias-snapshot"; PROP="P15"; MODULE="common"; PKG="pkg/fcrregistermgr"; RACE=True
F="common/pkg/fcrregistermgr/register_manager.go"
EDITS=[(F,'''	res := make([]register.GatewayRegistrar, 0)
	mgr.registeredGatewaysMapLock.RLock()
	defer mgr.registeredGatewaysMapLock.RUnlock()
	for _, gateway := range mgr.registeredGatewaysMap {
''','''	mgr.registeredGatewaysMapLock.RLock()
	known := mgr.registeredGatewaysMap
	mgr.registeredGatewaysMapLock.RUnlock()
	res := make([]register.GatewayRegistrar, 0, len(known))
	for _, gateway := range known {
''')]
NEEDS="a listing of the gateways while a refresh enters a new one"
BREAKS="the table is read while it is changed, because what was taken under the lock is the table itself and no copy"
TEST='''
package fcrregistermgr

import (
	"encoding/json"
	"fmt"
	"net/http"
	"net/http/httptest"
	"sync/atomic"
	"testing"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/register"
)

func TestVerifSeed(t *testing.T) {
	var count int32
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		n := int(atomic.AddInt32(&count, 1))
		list := []register.GatewayRegister{}
		for i := 0; i < n && i < 200; i++ {
			list = append(list, register.GatewayRegister{NodeID: fmt.Sprintf("%064x", i+1), Address: "a"})
		}
		json.NewEncoder(w).Encode(list)
	}))
	defer srv.Close()
	mgr := NewFCRRegisterMgr(srv.URL, false, true, time.Millisecond)
	if err := mgr.Start(); err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 60000 && len(mgr.GetAllGateways()) < 100; i++ {
		time.Sleep(50 * time.Microsecond)
	}
	if n := len(mgr.GetAllGateways()); n < 100 {
		t.Fatal("only ", n)
	}
}
'''
