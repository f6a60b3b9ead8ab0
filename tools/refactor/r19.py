p='common/pkg/fcrp2pserver/tcp_comms.go'
s=open(p).read()
i=s.index('	// Read the length\n'); j=s.index('// sendTCPMessage sends')
s=s[:i]+'''	var head [4]byte
	if err := limit(conn, timeout); err != nil {
		return nil, err
	}
	n, err := io.ReadFull(conn, head[:])
	switch {
	case err != nil && n != 0:
		return nil, incompleteMessageError(err)
	case err != nil:
		return nil, err
	}
	size := int(binary.BigEndian.Uint32(head[:]))
	if size <= maxTCPMessageLength {
		return readBody(conn, size, timeout)
	}
	return nil, errors.New("message is too long")
}

func limit(conn net.Conn, timeout time.Duration) error {
	until := time.Now().Add(timeout)
	return conn.SetDeadline(until)
}

func readBody(conn net.Conn, size int, timeout time.Duration) (*fcrmessages.FCRMessage, error) {
	body := make([]byte, size)
	if err := limit(conn, timeout); err != nil {
		return nil, err
	}
	got := 0
	for got < size {
		m, err := conn.Read(body[got:])
		got += m
		if err != nil && got < size {
			return nil, incompleteMessageError(err)
		}
	}
	return fcrmessages.FCRMsgFromBytes(body)
}

'''+s[j:]
i=s.index('	// Initialise a writer\n'); j=s.index('// sendProtocolChanged sends')
s=s[:i]+'''	frame := frameOf(data)
	if err := limit(conn, timeout); err != nil {
		return err
	}
	if _, err := conn.Write(frame); err != nil {
		return err
	}
	return nil
}

func frameOf(data []byte) []byte {
	frame := make([]byte, 4+len(data))
	binary.BigEndian.PutUint32(frame, uint32(len(data)))
	copy(frame[4:], data)
	return frame
}

'''+s[j:]
s=s.replace('	"bufio"\n','')
open(p,'w').write(s)
