// Package tlsweb serves https on the loopback interface.
package tlsweb

import (
	"encoding/pem"
	"io"
	"log"
	"net/http"
	"net/http/httptest"
	"os"

	"verif/vh"
)

// New starts a server, makes this process trust it (if it has not used TLS
// before) and returns its address and the file with its certificate.
func New(h http.Handler) (base, certFile string) {
	s := httptest.NewUnstartedServer(h)
	s.Config.ErrorLog = log.New(io.Discard, "", 0)
	s.StartTLS()
	f, err := os.CreateTemp("", "cert")
	vh.Must(err)
	vh.Must(pem.Encode(f, &pem.Block{Type: "CERTIFICATE", Bytes: s.Certificate().Raw}))
	vh.Must(f.Close())
	vh.Must(os.Setenv("SSL_CERT_FILE", f.Name()))
	return s.URL, f.Name()
}
