SV="p2p/server.go"; PR="p2p/peer.go"; MT="p2p/multitracker.go"; SO="storage/storage.go"; TO="storage/torrent.go"; LZ="storage/lazy_file_reader.go"; FU="future/future.go"; PX="pex/http.go"
SWARM="C24 C25 C26 C27 C28 C29 C30 C31 C32 C33 C34 C35 C38 C39 C40 C43"
STORE="C15 C16 C17 C18 C19 C20 C21 C22 C23 C41 C42"
MUTS=[
("q-server-a",SWARM,SV,
# Start helpers
"""	for _, p := range res.Peers.List {
		err := p2p.AddPeer(p)
		if err != nil {
			slog.Error("Start.AddPeer", "err", err)
		}
	}
	interval := defaultInterval
	if 0 < res.Interval && res.Interval < math.MaxInt32 {
		interval = time.Duration(res.Interval) * time.Second
	}
	eg.Go(func() error { return p2p.every(ctx, p2p.Announce, interval) })
""","""	p2p.addPeers("Start", res.Peers.List)
	interval := announceInterval(res.Interval)
	eg.Go(func() error { return p2p.every(ctx, p2p.Announce, interval) })
""",
"""	for _, tp := range res.Peers.List {
		err := p2p.AddPeer(tp)
		if err != nil {
			slog.Error("Announce.AddPeer", "err", err)
		}
	}
	return nil
}
""","""	p2p.addPeers("Announce", res.Peers.List)
	return nil
}

func (p2p *Server) addPeers(caller string, list []*tracker.Peer) {
	for i := 0; i < len(list); i++ {
		if err := p2p.AddPeer(list[i]); err != nil {
			slog.Error(caller+".AddPeer", "err", err)
		}
	}
}

func announceInterval(seconds int) time.Duration {
	if seconds <= 0 || seconds >= math.MaxInt32 {
		return defaultInterval
	}
	return time.Duration(seconds) * time.Second
}
""",
"""		select {
		case p2p.peerSemaphore <- struct{}{}:
		default:
			conn.Close()
			continue
		}
		go func() {
			defer func() { <-p2p.peerSemaphore }()
			slog.Debug("Serve.Accept", "conn", conn.RemoteAddr())
			peer := p2p.newPeer(conn)
			peer.ctx, peer.cancel = context.WithCancel(ctx)
			slog.Info("Serve", "peer", peer.Addr())
			peer.serve(peer.ctx)
		}()
	}
}
""","""		if !p2p.tryAcquire() {
			conn.Close()
			continue
		}
		go p2p.handleConn(ctx, conn)
	}
}

func (p2p *Server) tryAcquire() bool {
	select {
	case p2p.peerSemaphore <- struct{}{}:
		return true
	default:
		return false
	}
}

func (p2p *Server) release() {
	<-p2p.peerSemaphore
}

func (p2p *Server) handleConn(ctx context.Context, conn net.Conn) {
	defer p2p.release()
	slog.Debug("Serve.Accept", "conn", conn.RemoteAddr())
	peer := p2p.newPeer(conn)
	peer.ctx, peer.cancel = context.WithCancel(ctx)
	slog.Info("Serve", "peer", peer.Addr())
	peer.serve(peer.ctx)
}
""",
"""	var wg sync.WaitGroup
	for _, p := range peers {
		if p.Closed.Load() || !p.Choked.Load() {
			continue
		}
		wg.Add(1)
		go func(p *Peer) {
			defer wg.Done()
			if err := p.Unchoke(); err != nil {
				slog.Error("UnchokePeers.Unchoke", "err", err)
				return
			}
		}(p)
	}
	wg.Wait()
	return nil
""","""	var wg sync.WaitGroup
	for _, p := range peers {
		if !p.Closed.Load() && p.Choked.Load() {
			wg.Add(1)
		go func() { defer wg.Done(); unchoke(p) }()
		}
	}
	wg.Wait()
	return nil
}

func unchoke(p *Peer) {
	err := p.Unchoke()
	if err == nil {
		return
	}
	slog.Error("UnchokePeers.Unchoke", "err", err)
""",
"""				if err := p2p.dialPeer(ctx, tp); err != nil {
					slog.Error("DialPeers.dialPeer", "err", err)
				}
				if addr, err := remoteAddr(tp); err == nil {
					p2p.mu.Lock()
					delete(p2p.knownPeers, addr)
					p2p.mu.Unlock()
				}
			}()""","""				err := p2p.dialPeer(ctx, tp)
				if err != nil {
					slog.Error("DialPeers.dialPeer", "err", err)
				}
				p2p.forget(tp)
			}()""",
"""func (p2p *Server) RequestPieces(""","""func (p2p *Server) forget(tp *tracker.Peer) {
	key, err := remoteAddr(tp)
	if err != nil {
		return
	}
	p2p.mu.Lock()
	defer p2p.mu.Unlock()
	delete(p2p.knownPeers, key)
}

func (p2p *Server) RequestPieces(""",
),
("q-server-b",SWARM,SV,
"""	rand.Shuffle(len(pieces), func(i, j int) {
		pieces[i], pieces[j] = pieces[j], pieces[i]
	})
	sort.SliceStable(pieces, func(i, j int) bool {
		return len(p2p.indexToPeers[pieces[i]]) < len(p2p.indexToPeers[pieces[j]])
	})
	for _, index := range pieces {
		if p2p.inflight[index] != nil {
			continue
		}
		p2p.inflight[index] = peer
		peer.fetching = true
		go func() {
			err := p2p.requestPiece(ctx, peer, index)
			p2p.mu.Lock()
			delete(p2p.inflight, index)
			p2p.nextWaiting(ctx)
			p2p.mu.Unlock()
			if err != nil {
				slog.Error("requestPieceFromPeer.requestPiece", "err", err)
				if _, ok := err.(*storage.ChecksumError); ok {
					if err := p2p.Block(peer); err != nil {
						slog.Error("requestPieceFromPeer.Block", "err", err)
					}
				}
			}
			if err != nil {
				select {
				case <-ctx.Done():
					return
				case <-time.After(10 * time.Second):
				}
			}
			p2p.mu.Lock()
			peer.fetching = false
			p2p.mu.Unlock()
			select {
			case <-ctx.Done():
			case p2p.downloadQueue <- peer:
			}
		}()
		return true
	}
	return false
}

""","""	index, ok := p2p.rarestFree(pieces)
	if ok {
		p2p.inflight[index] = peer
		peer.fetching = true
		go p2p.fetch(ctx, peer, index)
	}
	return ok
}

// rarestFree picks at random among the rarest pieces that nobody fetches.
func (p2p *Server) rarestFree(pieces []int) (int, bool) {
	best, found := -1, false
	seen := 0
	for _, index := range pieces {
		if p2p.inflight[index] != nil {
			continue
		}
		n := len(p2p.indexToPeers[index])
		switch {
		case !found || n < len(p2p.indexToPeers[best]):
			best, found, seen = index, true, 1
		case n == len(p2p.indexToPeers[best]):
			seen++
			if rand.Intn(seen) == 0 {
				best = index
			}
		}
	}
	return best, found
}

func (p2p *Server) fetch(ctx context.Context, peer *Peer, index int) {
	err := p2p.requestPiece(ctx, peer, index)
	p2p.mu.Lock()
	delete(p2p.inflight, index)
	p2p.nextWaiting(ctx)
	p2p.mu.Unlock()
	var wait time.Duration
	if err != nil {
		wait = 10 * time.Second
		slog.Error("requestPieceFromPeer.requestPiece", "err", err)
		var checksum *storage.ChecksumError
		if errors.As(err, &checksum) {
			if err := p2p.Block(peer); err != nil {
				slog.Error("requestPieceFromPeer.Block", "err", err)
			}
		}
	}
	p2p.requeueAfter(ctx, peer, wait)
}

func (p2p *Server) requeueAfter(ctx context.Context, peer *Peer, wait time.Duration) {
	if wait > 0 {
		timer := time.NewTimer(wait)
		defer timer.Stop()
		select {
		case <-timer.C:
		case <-ctx.Done():
			return
		}
	}
	p2p.mu.Lock()
	peer.fetching = false
	p2p.mu.Unlock()
	select {
	case p2p.downloadQueue <- peer:
	case <-ctx.Done():
	}
}

""","""	"sort"
""","",
"""	if _, ok := p2p.knownPeers[addr]; ok {
		return nil
	}
	if _, ok := p2p.blockedPeers[addr]; ok {
		return nil
	}
	select {""","""	_, blocked := p2p.blockedPeers[addr]
	_, known := p2p.knownPeers[addr]
	if blocked || known {
		return nil
	}
	select {""",
"""	for _, i := range peer.Bitfield.Items() {
		delete(p2p.indexToPeers[i], peer)
	}
	if p2p.activePeers[peer.IDIP()] == peer {
		for addr := range p2p.knownAddrs[peer.IDIP()] {
			if idip, ok := p2p.knownIDIPs[addr]; ok && idip == peer.IDIP() {
				delete(p2p.knownIDIPs, addr)
			}
		}
		delete(p2p.knownAddrs, peer.IDIP())
		delete(p2p.activePeers, peer.IDIP())
	}
	return peer.Close()""","""	key := peer.IDIP()
	if p2p.activePeers[key] == peer {
		delete(p2p.activePeers, key)
		for a := range p2p.knownAddrs[key] {
			if p2p.knownIDIPs[a] == key {
				delete(p2p.knownIDIPs, a)
			}
		}
		delete(p2p.knownAddrs, key)
	}
	for i := range p2p.Info.Pieces {
		if peer.Bitfield.Has(i) {
			delete(p2p.indexToPeers[i], peer)
		}
	}
	return peer.Close()""",
),
("q-server-c",SWARM,SV,
"""	p2p.mu.Lock()
	p2p.cancel()
	p2p.tcp.Close()
	var errs []error
	for _, p := range p2p.activePeers {
		errs = append(errs, p2p.disconnect(p))
	}
	p2p.mu.Unlock()
	_, err := p2p.Tracker.Stop()
	errs = append(errs, err)
	return errors.Join(errs...)
""","""	errs := p2p.closeAll()
	if _, err := p2p.Tracker.Stop(); err != nil {
		errs = append(errs, err)
	}
	return errors.Join(errs...)
}

func (p2p *Server) closeAll() (errs []error) {
	p2p.mu.Lock()
	defer p2p.mu.Unlock()
	p2p.cancel()
	p2p.tcp.Close()
	for _, p := range slices.Collect(maps.Values(p2p.activePeers)) {
		if err := p2p.disconnect(p); err != nil {
			errs = append(errs, err)
		}
	}
	return errs
""","""	p2p.mu.Lock()
	if len(p2p.activePeers) >= 50 {
		p2p.mu.Unlock()
		return ErrTooManyConnections
	}
	if idip, ok := p2p.knownIDIPs[peer.Addr()]; ok {
		if _, ok := p2p.activePeers[idip]; ok {
			p2p.mu.Unlock()
			return ErrAlreadyConnected
		}
	}
	p2p.mu.Unlock()
""","""	if err := p2p.mayConnect(peer.Addr()); err != nil {
		return err
	}
""",
"""// crosses tells""","""func (p2p *Server) mayConnect(a addr) error {
	p2p.mu.Lock()
	defer p2p.mu.Unlock()
	if len(p2p.activePeers) >= maxPeers {
		return ErrTooManyConnections
	}
	if key, ok := p2p.knownIDIPs[a]; ok && p2p.activePeers[key] != nil {
		return ErrAlreadyConnected
	}
	return nil
}

const maxPeers = 50

// crosses tells""",
"""	addrs, ok := p2p.knownAddrs[peer.IDIP()]
	if !ok {
		addrs = make(map[addr]struct{})
		p2p.knownAddrs[peer.IDIP()] = addrs
	}
	addrs[peer.Addr()] = struct{}{}
	p2p.knownIDIPs[peer.Addr()] = peer.IDIP()
	if _, ok""","""	if p2p.knownAddrs[peer.IDIP()] == nil {
		p2p.knownAddrs[peer.IDIP()] = map[addr]struct{}{}
	}
	p2p.knownIDIPs[peer.Addr()] = peer.IDIP()
	p2p.knownAddrs[peer.IDIP()][peer.Addr()] = struct{}{}
	if _, ok""",
"""	bf := p2p.Storage.Torrent.CompletePieces()
	if err := peer.Send(peerapi.Bitfield(bf)); err != nil {
		return err
	}
	return nil
""","""	return peer.Send(peerapi.Bitfield(p2p.Storage.Torrent.CompletePieces()))
""",
"""	for {
		select {
		case <-ctx.Done():
			return ctx.Err()
		case <-ticker.C:
		}
		if err := f(ctx); err != nil {
			return err
		}
	}
""","""	for {
		select {
		case <-ticker.C:
			if err := f(ctx); err != nil {
				return err
			}
		case <-ctx.Done():
			return ctx.Err()
		}
	}
""",
"""	err := p.requestPiece(ctx, i)
	if !p2p.Storage.Torrent.CompletePieces().Has(i) {
		return err
	}
	p2p.mu.Lock()
	peers := maps.Clone(p2p.activePeers)
	p2p.mu.Unlock()
	for _, p := range peers {
		if p.Closed.Load() {
			continue
		}
		if err := p.Send(peerapi.Have(i)); err != nil {
			slog.Error("requestPiece.Send", "err", err)
		}
	}
	return err
}
""","""	err := p.requestPiece(ctx, i)
	if p2p.Storage.Torrent.CompletePieces().Has(i) {
		p2p.broadcastHave(i)
	}
	return err
}

func (p2p *Server) connected() []*Peer {
	p2p.mu.Lock()
	defer p2p.mu.Unlock()
	peers := make([]*Peer, 0, len(p2p.activePeers))
	for _, p := range p2p.activePeers {
		peers = append(peers, p)
	}
	return peers
}

func (p2p *Server) broadcastHave(i int) {
	m := peerapi.Have(i)
	for _, p := range p2p.connected() {
		if !p.Closed.Load() {
			if err := p.Send(m); err != nil {
				slog.Error("requestPiece.Send", "err", err)
			}
		}
	}
}
""",
"""	for addr := range p2p.knownAddrs[peer.IDIP()] {
		p2p.blockedPeers[addr] = struct{}{}
	}
	return p2p""","""	maps.Copy(p2p.blockedPeers, p2p.knownAddrs[peer.IDIP()])
	return p2p""",
),
("q-peer-a",SWARM,PR,
"""	if phs.InfoHash != hs.InfoHash {
		return errors.New("p2p: Handshake: info hashes do not match")
	}
	if p.ID != [20]byte{} && p.ID != phs.PeerID {
		return errors.New("p2p: Handshake: peer IDs do not match")
	}
	p.ID = phs.PeerID
	if p.ID == p.server.PeerID {
		return errors.New("p2p: Handshake: peer ID matches own ID")
	}
	return nil
}
""","""	if err := p.checkHandshake(phs); err != nil {
		return err
	}
	p.ID = phs.PeerID
	return nil
}

func (p *Peer) checkHandshake(hs *peerapi.Handshake) error {
	var unknown [20]byte
	switch {
	case hs.InfoHash != p.server.Info.SHA1:
		return errors.New("p2p: Handshake: info hashes do not match")
	case hs.PeerID == p.server.PeerID:
		return errors.New("p2p: Handshake: peer ID matches own ID")
	case p.ID != unknown && p.ID != hs.PeerID:
		return errors.New("p2p: Handshake: peer IDs do not match")
	}
	return nil
}
""",
"""	switch m.Type {
	case peerapi.CHOKE:
		p.mu.Lock()
		p.RemoteChoked.Store(true)
		for br := range p.inflightRequests {
			p.completeRequest(&br, ErrChoked)
		}
		p.mu.Unlock()
	default:
	}
	return m, nil
}
""","""	if m.Type == peerapi.CHOKE {
		p.handleChoke()
	}
	return m, nil
}

func (p *Peer) handleChoke() {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.RemoteChoked.Store(true)
	var requests []blockRequest
	for br := range p.inflightRequests {
		requests = append(requests, br)
	}
	for i := range requests {
		p.completeRequest(&requests[i], ErrChoked)
	}
}
""",
"""	if p.Choked.CompareAndSwap(false, true) {
		return p.send(peerapi.Choke())
	}
	return nil
""","""	return p.flip(&p.Choked, true, peerapi.Choke)
""",
"""	if p.Choked.CompareAndSwap(true, false) {
		return p.send(peerapi.Unchoke())
	}
	return nil
""","""	return p.flip(&p.Choked, false, peerapi.Unchoke)
""",
"""	if p.Interested.CompareAndSwap(false, true) {
		return p.send(peerapi.Interested())
	}
	return nil
""","""	return p.flip(&p.Interested, true, peerapi.Interested)
""",
"""	if p.Interested.CompareAndSwap(true, false) {
		return p.send(peerapi.NotInterested())
	}
	return nil
}
""","""	return p.flip(&p.Interested, false, peerapi.NotInterested)
}

// flip tells the peer of a change of state, p.mu is held.
func (p *Peer) flip(state *atomic.Bool, to bool, m func() *peerapi.Message) error {
	if state.Swap(to) == to {
		return nil
	}
	return p.send(m())
}
""",
"""	eg, ctx := errgroup.WithContext(ctx)
	eg.SetLimit(16)
	for begin := 0; begin < pieceLength; begin += storage.BLOCK_LENGTH {
		blockLength := min(storage.BLOCK_LENGTH, pieceLength-begin)
		func(begin, blockLength int) {
			eg.Go(func() error {
				ctx, cancel := context.WithTimeout(ctx, 10*time.Second)
				defer cancel()
				return peer.requestBlock(ctx, &blockRequest{index, begin, blockLength})
			})
		}(begin, blockLength)
	}
	if err := eg.Wait(); err != nil {
		return err
	}
	if err := piece.Wait(); err != nil {
		return err
	}
	return nil
}
""","""	eg, ctx := errgroup.WithContext(ctx)
	eg.SetLimit(maxRequests)
	for _, br := range blocks(index, pieceLength) {
		eg.Go(func() error { return peer.requestWithTimeout(ctx, br) })
	}
	if err := eg.Wait(); err != nil {
		return err
	}
	return piece.Wait()
}

const maxRequests = 16

func blocks(index, pieceLength int) []*blockRequest {
	n := (pieceLength + storage.BLOCK_LENGTH - 1) / storage.BLOCK_LENGTH
	res := make([]*blockRequest, n)
	for i := range n {
		begin := i * storage.BLOCK_LENGTH
		res[i] = &blockRequest{index, begin, min(storage.BLOCK_LENGTH, pieceLength-begin)}
	}
	return res
}

func (peer *Peer) requestWithTimeout(ctx context.Context, br *blockRequest) error {
	ctx, cancel := context.WithTimeout(ctx, 10*time.Second)
	defer cancel()
	return peer.requestBlock(ctx, br)
}
""",
"""	for {
		select {
		case <-ctx.Done():
			return
		default:
		}
		m, err := peer.Receive()""","""	for ctx.Err() == nil {
		m, err := peer.Receive()""",
),
("q-peer-b",SWARM,PR,
"""	eg, ctx := errgroup.WithContext(ctx)
	eg.SetLimit(16)
	for begin := 0; begin < pieceLength; begin += storage.BLOCK_LENGTH {
		blockLength := min(storage.BLOCK_LENGTH, pieceLength-begin)
		func(begin, blockLength int) {
			eg.Go(func() error {
				ctx, cancel := context.WithTimeout(ctx, 10*time.Second)
				defer cancel()
				return peer.requestBlock(ctx, &blockRequest{index, begin, blockLength})
			})
		}(begin, blockLength)
	}
	if err := eg.Wait(); err != nil {
		return err
	}
""","""	ctx, cancel := context.WithCancelCause(ctx)
	defer cancel(nil)
	var wg sync.WaitGroup
	var once sync.Once
	var first error
	sem := make(chan struct{}, 16)
	for begin := 0; begin < pieceLength; begin += storage.BLOCK_LENGTH {
		br := &blockRequest{index, begin, min(storage.BLOCK_LENGTH, pieceLength-begin)}
		sem <- struct{}{}
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			if err := peer.requestBlock(ctx, br); err != nil {
				once.Do(func() {
					first = err
					cancel(err)
				})
			}
		}()
	}
	wg.Wait()
	if first != nil {
		return first
	}
""",'''	"golang.org/x/sync/errgroup"
''','',
"""	select {
	case <-ctx.Done():
		return ctx.Err()
	case <-fut.Done:
		return fut.Wait()
	}
""","""	timeout := time.NewTimer(10 * time.Second)
	defer timeout.Stop()
	select {
	case <-timeout.C:
		return context.DeadlineExceeded
	case <-ctx.Done():
		return context.Cause(ctx)
	case <-fut.Done:
		return fut.Wait()
	}
""",
"""func (p *Peer) Close() error {
	if p.Closed.CompareAndSwap(false, true) {
		if p.cancel == nil {
			panic("peer missing cancel")
		}
		p.cancel()
		return p.Conn.Close()
	}
	return nil
}
""","""func (p *Peer) Close() error {
	if p.cancel == nil {
		panic("peer missing cancel")
	}
	if p.Closed.Swap(true) {
		return nil
	}
	defer p.cancel()
	return p.Conn.Close()
}
""",
"""	if !ok {
		fut = future.New[error]()
		p.inflightRequests[*br] = fut
	}
	p.mu.Unlock()
	defer func() {
		p.mu.Lock()
		defer p.mu.Unlock()
		delete(p.inflightRequests, *br)
	}()
""","""	if !ok {
		fut = future.New[error]()
		p.inflightRequests[*br] = fut
	}
	p.mu.Unlock()
	defer p.forget(*br)
""",
"""func (p *Peer) completeRequest(""","""func (p *Peer) forget(br blockRequest) {
	p.mu.Lock()
	delete(p.inflightRequests, br)
	p.mu.Unlock()
}

func (p *Peer) completeRequest(""",
"""	err := peer.server.Storage.PutBlock(index, begin, data)
	peer.completeRequest(&br, nil)
	if err != nil && !errors.Is(err, storage.ErrBlockExists) {
		return err
	}
	if err == nil {
		peer.downloaded.Add(int64(len(data)))
		peer.server.downloaded.Add(int64(len(data)))
	}
	return nil
""","""	defer peer.completeRequest(&br, nil)
	switch err := peer.server.Storage.PutBlock(index, begin, data); {
	case err == nil:
		n := int64(len(data))
		peer.downloaded.Add(n)
		peer.server.downloaded.Add(n)
		return nil
	case errors.Is(err, storage.ErrBlockExists):
		return nil
	default:
		return err
	}
""",
"""	if i >= len(peer.server.Info.Pieces) {
		return fmt.Errorf("p2p: no such piece: %d", i)
	}
	peer.server.RecordIndex(i, peer)
	if !peer.server.Storage.Torrent.CompletePieces().Has(i) {
		// In this order, as the piece may be complete by now: what is queued
		// last finds out and withdraws the interest.
		if err := peer.Interest(); err != nil {
			return err
		}
		peer.server.QueuePeer(peer)
	}
	return nil
""","""	server := peer.server
	if i >= len(server.Info.Pieces) {
		return fmt.Errorf("p2p: no such piece: %d", i)
	}
	server.RecordIndex(i, peer)
	if server.Storage.Torrent.CompletePieces().Has(i) {
		return nil
	}
	if err := peer.Interest(); err != nil {
		return err
	}
	server.QueuePeer(peer)
	return nil
""",
),
("q-multi",SWARM,MT,
"""	for _, tier := range mt.TrackerTiers {
		mt.mu.Lock()
		trackers := slices.Clone(tier)
		mt.mu.Unlock()
		for _, tracker := range trackers {
			res, err = tracker.get(event)
			if err == nil {
				mt.mu.Lock()
				defer mt.mu.Unlock()
				j := slices.Index(tier, tracker)
				copy(tier[1:j+1], tier[0:j])
				tier[0] = tracker
				return
			}
			slog.Error("get", "err", err)
		}
	}
	return
}
""","""	for i := range mt.TrackerTiers {
		for _, tracker := range mt.snapshot(i) {
			if res, err = tracker.get(event); err == nil {
				mt.promote(i, tracker)
				return res, nil
			}
			slog.Error("get", "err", err)
		}
	}
	return res, err
}

func (mt *Multitracker) snapshot(i int) []*Tracker {
	mt.mu.Lock()
	defer mt.mu.Unlock()
	return append([]*Tracker(nil), mt.TrackerTiers[i]...)
}

func (mt *Multitracker) promote(i int, tracker *Tracker) {
	mt.mu.Lock()
	defer mt.mu.Unlock()
	tier := []*Tracker{tracker}
	for _, t := range mt.TrackerTiers[i] {
		if t != tracker {
			tier = append(tier, t)
		}
	}
	mt.TrackerTiers[i] = tier
}
""",
"""	url, err := url.Parse(mt.URL)
	if err != nil {
		return nil, err
	}
	if url.RawQuery != "" {
		url.RawQuery += "&"
	}
	url.RawQuery += req.Encode()
	httpRes, err := httpClient.Get(url.String())
	if err != nil {
		return nil, err
	}
	defer httpRes.Body.Close()
	data, err := io.ReadAll(httpRes.Body)
	if err != nil {
		return nil, err
	}
	res := &trackerapi.Response{}
	if err := bencode.Unmarshal(data, res); err != nil {
		return nil, err
	}
	if res.FailureReason""","""	u, err := announceURL(mt.URL, req)
	if err != nil {
		return nil, err
	}
	httpReq, err := http.NewRequestWithContext(context.Background(), http.MethodGet, u, nil)
	if err != nil {
		return nil, err
	}
	httpRes, err := httpClient.Do(httpReq)
	if err != nil {
		return nil, err
	}
	defer func() {
		if err := httpRes.Body.Close(); err != nil {
			slog.Debug("get", "err", err)
		}
	}()
	var body bytes.Buffer
	if _, err := body.ReadFrom(httpRes.Body); err != nil {
		return nil, err
	}
	res := new(trackerapi.Response)
	if err := bencode.Unmarshal(body.Bytes(), res); err != nil {
		return nil, err
	}
	if res.FailureReason""",
"""func (mt *Tracker) get(""","""func announceURL(base string, req *trackerapi.Request) (string, error) {
	u, err := url.Parse(base)
	if err != nil {
		return "", err
	}
	parts := []string{}
	if u.RawQuery != "" {
		parts = append(parts, u.RawQuery)
	}
	u.RawQuery = strings.Join(append(parts, req.Encode()), "&")
	return u.String(), nil
}

func (mt *Tracker) get(""",
'''import (
	"errors"
	"io"
''','''import (
	"bytes"
	"context"
	"errors"
''','''	"slices"
	"sync"''','''	"slices"
	"strings"
	"sync"''',
),
("q-pex","C36 C37 C38",PX,
"""			for _, torrent := range t.Torrents {
				torrent.mu.Lock()
				peers := maps.Clone(torrent.Peers)
				for addr, p := range peers {
					if p.LastEvent == "stopped" || time.Since(p.UpdatedAt) > time.Minute {
						delete(torrent.Peers, addr)
					}
				}
				torrent.mu.Unlock()
			}
""","""			for _, torrent := range t.Torrents {
				torrent.expire(time.Now())
			}
""",
"""func NewHTTP(""","""func (p *Peer) gone(now time.Time) bool {
	return p.LastEvent == "stopped" || now.Sub(p.UpdatedAt) > time.Minute
}

func (t *Torrent) expire(now time.Time) {
	t.mu.Lock()
	defer t.mu.Unlock()
	maps.DeleteFunc(t.Peers, func(_ string, p *Peer) bool { return p.gone(now) })
}

func NewHTTP(""",
"""		if p.LastEvent == "stopped" || time.Since(p.UpdatedAt) > time.Minute {
			continue
		}
		paddr := fmt.Sprintf("%s:%d", p.tp.IP, p.tp.Port)
		if r.Compact && net.ParseIP(p.tp.IP).To4() == nil {
			// The compact form holds IPv4 addresses only.
			continue
		}
		if paddr != addr {
			peers.List = append(peers.List, p.tp)
		}
""","""		if p == peer || p.gone(peer.UpdatedAt) {
			continue
		}
		v4 := net.ParseIP(p.tp.IP).To4() != nil
		if v4 || !r.Compact {
			peers.List = append(peers.List, p.tp)
		}
""",
"""			<-ticker.C
""","""			select {
			case <-ticker.C:
			}
"""),
]
MUTS+=[
("q-store-a",STORE+" C39 C25",SO,
"""	_, err := os.Stat(filepath.Join(s.TargetDir, s.Torrent.FileName()))
	if err != nil && !errors.Is(err, os.ErrNotExist) {
		return err
	}
	if err == nil {
		// Complete torrent exists on disk
		for i := range len(s.Torrent.Info.Pieces) {
			s.Torrent.completePiece(s.Torrent.pieces[i])
		}
		s.Torrent.complete()
		s.downloaded.Store(s.Torrent.Info.GetLength())
	} else {
		// Check for complete pieces on disk
		direntries, err := os.ReadDir(filepath.Join(s.WorkDir, s.Torrent.WorkDir()))
		if err != nil && !errors.Is(err, os.ErrNotExist) {
			return err
		}
		if err == nil {
			for _, dr := range direntries {
				var i int
				_, err := fmt.Sscanf(dr.Name(), "%d.piece", &i)
				if err != nil {
					continue
				}
				if i < 0 || i >= len(s.Torrent.pieces) || dr.Name() != s.Torrent.pieces[i].FileName() {
					continue
				}
				if s.Torrent.pieces[i].coalesced {
					// Found by an earlier Load, which failed afterwards.
					continue
				}
				st, err := os.Stat(filepath.Join(s.WorkDir, s.Torrent.WorkDir(), dr.Name()))
				if err != nil {
					return err
				}
				if st.Size() != int64(s.Torrent.pieces[i].Length) {
					continue
				}
				s.downloaded.Add(st.Size())
				s.Torrent.completePiece(s.Torrent.pieces[i])
			}
			if err = s.coalescePieces(); err != nil {
				return err
			}
		}
	}
	return nil
}
""","""	done, err := exists(filepath.Join(s.TargetDir, s.Torrent.FileName()))
	if err != nil {
		return err
	}
	if done {
		for _, p := range s.Torrent.pieces {
			s.Torrent.completePiece(p)
		}
		s.Torrent.complete()
		s.downloaded.Store(s.Torrent.Info.GetLength())
		return nil
	}
	started, err := exists(filepath.Join(s.WorkDir, s.Torrent.WorkDir()))
	if err != nil || !started {
		return err
	}
	return s.loadPieces()
}

func exists(path string) (bool, error) {
	switch _, err := os.Lstat(path); {
	case err == nil:
		return true, nil
	case os.IsNotExist(err):
		return false, nil
	default:
		return false, err
	}
}

// loadPieces looks for complete pieces on disk.
func (s *Storage) loadPieces() error {
	for _, p := range s.Torrent.pieces {
		if p.coalesced {
			continue
		}
		st, err := os.Lstat(filepath.Join(s.WorkDir, s.Torrent.WorkDir(), p.FileName()))
		if errors.Is(err, fs.ErrNotExist) {
			continue
		}
		if err != nil {
			return err
		}
		if st.Size() == int64(p.Length) {
			s.downloaded.Add(st.Size())
			s.Torrent.completePiece(p)
		}
	}
	return s.coalescePieces()
}
""",'''	"io"
	"log/slog"
''','''	"io"
	"io/fs"
	"log/slog"
''',
"""	var blockReaders []io.Reader
	for _, b := range piece.blocks {
		blockReaders = append(blockReaders, bytes.NewReader(b.data))
	}
	mr := io.MultiReader(blockReaders...)
	sha1Digest := sha1.New()
	r := io.TeeReader(mr, sha1Digest)
	if _, err := io.Copy(temp, r); err != nil {
		return err
	}
	var hash [20]byte
	sha1Digest.Sum(hash[:0])
	if hash != piece.SHA1 {
		return &ChecksumError{piece.Index, hash, piece.SHA1}
	}
""","""	var data bytes.Buffer
	for _, b := range piece.blocks {
		data.Write(b.data)
	}
	if hash := sha1.Sum(data.Bytes()); hash != piece.SHA1 {
		return &ChecksumError{piece.Index, hash, piece.SHA1}
	}
	if _, err := data.WriteTo(temp); err != nil {
		return err
	}
""",
"""	data := make([]byte, length)
	n, err := f.ReadAt(data, int64(begin))
	if err != nil {
		return nil, err
	}
	return data[:n], nil
""","""	if _, err := f.Seek(int64(begin), io.SeekStart); err != nil {
		return nil, err
	}
	data := make([]byte, length)
	if _, err := io.ReadFull(f, data); err != nil {
		return nil, err
	}
	return data, nil
""",
"""	data := make([]byte, length)
	offset := index*s.Torrent.Info.PieceLength + begin
	n, err := f.ReadAt(data, int64(offset))
	if err != nil {
		return nil, err
	}
	if n < len(data) {
		return nil, fmt.Errorf("storage: incomplete read: %d < %d", n, len(data))
	}
	return data, nil
""","""	offset := int64(index)*int64(s.Torrent.Info.PieceLength) + int64(begin)
	data, err := io.ReadAll(io.NewSectionReader(f, offset, int64(length)))
	if err != nil {
		return nil, err
	}
	if len(data) < length {
		return nil, fmt.Errorf("storage: incomplete read: %d < %d", len(data), length)
	}
	return data, nil
""",
),
("q-store-b",STORE+" C39 C25",SO,
"""	var pieceReaders []io.Reader
	for _, piece := range s.Torrent.pieces {
		path := filepath.Join(s.WorkDir, s.Torrent.WorkDir(), piece.FileName())
		lfr := &lazyFileReader{path: path}
		defer lfr.Close()
		pieceReaders = append(pieceReaders, lfr)
	}
	r := io.MultiReader(pieceReaders...)
	if _, err := io.Copy(temp, r); err != nil {
		return err
	}
	if err = temp.Sync(); err != nil {
		return err
	}
""","""	out := bufio.NewWriterSize(temp, 1<<12)
	for _, piece := range s.Torrent.pieces {
		data, err := os.ReadFile(filepath.Join(s.WorkDir, s.Torrent.WorkDir(), piece.FileName()))
		if err != nil {
			return err
		}
		if _, err := out.Write(data); err != nil {
			return err
		}
	}
	if err := out.Flush(); err != nil {
		return err
	}
	if err := temp.Sync(); err != nil {
		return err
	}
""",'''import (
	"bytes"
''','''import (
	"bufio"
	"bytes"
''',
"""		fp := append([]string{temp}, file.Path...)
		if err := os.MkdirAll(filepath.Join(fp[:len(fp)-1]...), 0o0700); err != nil {
			return err
		}
		f, err := os.Create(filepath.Join(fp...))
		if err != nil {
			return err
		}
		if _, err = io.CopyN(f, r, int64(file.Length)); err == nil {
			err = f.Sync()
		}
		f.Close()
		if err != nil {
			return err
		}
	}
""","""		path := filepath.Join(temp, filepath.Join(file.Path...))
		if err := writeFile(path, r, file.Length); err != nil {
			return err
		}
	}
""",
"""func (s *Storage) coalescePiecesForMultiFile(""","""func writeFile(path string, r io.Reader, length int64) (err error) {
	if err := os.MkdirAll(filepath.Dir(path), 0o700); err != nil {
		return err
	}
	f, err := os.OpenFile(path, os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0o600)
	if err != nil {
		return err
	}
	defer func() {
		if cerr := f.Close(); err == nil {
			err = cerr
		}
	}()
	n, err := io.Copy(f, io.LimitReader(r, length))
	if err != nil {
		return err
	}
	if n < length {
		return io.ErrUnexpectedEOF
	}
	return f.Sync()
}

func (s *Storage) coalescePiecesForMultiFile(""",
"""	curr := 0
	data := make([]byte, length)
	var total int64
	start := index*s.Torrent.Info.PieceLength + begin
	end := start + length
	for _, file := range s.Torrent.Info.Files {
		if total >= int64(end) {
			break
		}
		if total+file.Length >= int64(start) {
			offset := 0
			if total < int64(start) {
				offset = start - int(total)
			}
			fp := append([]string{s.TargetDir, s.Torrent.FileName()}, file.Path...)
			f, err := os.Open(filepath.Join(fp...))
			if err != nil {
				return nil, err
			}
			n, err := f.ReadAt(data[curr:], int64(offset))
			f.Close()
			curr += n
			if err != nil && !errors.Is(err, io.EOF) {
				return nil, err
			}
		}
		total += file.Length
	}
	if curr < len(data) {
		return nil, fmt.Errorf("storage: incomplete read: %d < %d", curr, len(data))
	}
	return data, nil
""","""	data := make([]byte, length)
	pos := int64(index)*int64(s.Torrent.Info.PieceLength) + int64(begin)
	rest := data
	for _, file := range s.Torrent.Info.Files {
		if len(rest) == 0 {
			break
		}
		if pos >= file.Length {
			pos -= file.Length
			continue
		}
		n := min(int64(len(rest)), file.Length-pos)
		path := append([]string{s.TargetDir, s.Torrent.FileName()}, file.Path...)
		if err := readAt(filepath.Join(path...), rest[:n], pos); err != nil {
			return nil, err
		}
		rest = rest[n:]
		pos = 0
	}
	if len(rest) > 0 {
		return nil, fmt.Errorf("storage: incomplete read: %d < %d", len(data)-len(rest), len(data))
	}
	return data, nil
}

func readAt(path string, data []byte, offset int64) error {
	f, err := os.Open(path)
	if err != nil {
		return err
	}
	defer f.Close()
	_, err = f.ReadAt(data, offset)
	return err
""",
),
("q-store-c",STORE+" C25 C30",SO,
"""	// The torrent is locked before the piece, as in GetBlock.
	s.Torrent.mu.Lock()
	defer s.Torrent.mu.Unlock()
	if s.Torrent.coalesced {
		return ErrBlockExists
	}
	piece := s.Torrent.pieces[index]
	piece.mu.Lock()
	defer piece.mu.Unlock()
	if err := piece.putBlock(begin, data); err != nil {
		return err
	}
	if err := s.coalesceBlocks(piece); err != nil {
		piece.err.Deliver(err)
		return err
	}
	if piece.coalesced {
		s.downloaded.Add(int64(piece.Length))
	}
	if err := s.coalescePieces(); err != nil {
		return err
	}
	return nil
}
""","""	s.Torrent.mu.Lock()
	defer s.Torrent.mu.Unlock()
	if s.Torrent.coalesced {
		return ErrBlockExists
	}
	if err := s.putBlock(s.Torrent.pieces[index], begin, data); err != nil {
		return err
	}
	return s.coalescePieces()
}

func (s *Storage) putBlock(piece *Piece, begin int, data []byte) (err error) {
	piece.mu.Lock()
	defer piece.mu.Unlock()
	if err := piece.putBlock(begin, data); err != nil {
		return err
	}
	if err = s.coalesceBlocks(piece); err != nil {
		piece.err.Deliver(err)
	} else if piece.coalesced {
		s.downloaded.Add(int64(piece.Length))
	}
	return
}
""",(TO,"""	p.blocks[block.begin/BLOCK_LENGTH] = block
"""),"""	p.blocks[block.begin/BLOCK_LENGTH] = block
	_ = p.Index
""",
(TO,"""	select {
	case <-p.err.Done:
		// Delivered when the checksum did not match.
	default:
		p.err.Deliver(errors.New("storage: piece reset"))
	}
	p.err = future.New[error]()
"""),"""	old := p.err
	p.err = future.New[error]()
	select {
	case <-old.Done:
	default:
		old.Deliver(errors.New("storage: piece reset"))
	}
""",
(TO,"""	t.mu.Lock()
	fut := t.err
	t.mu.Unlock()
	return fut.Wait()
"""),"""	t.mu.RLock()
	wait := t.err.Wait
	t.mu.RUnlock()
	return wait()
""",
(LZ,"""	defer func() {
		if errors.Is(err, io.EOF) {
			lfr.checkClose()
		}
	}()
	err = lfr.checkOpen()
	if err != nil {
		return 0, err
	}
	n, err = lfr.f.Read(p)
	lfr.read += int64(n)
	return
"""),"""	if err := lfr.checkOpen(); err != nil {
		return 0, err
	}
	n, err = lfr.f.Read(p)
	lfr.read += int64(n)
	if err == io.EOF {
		lfr.checkClose()
	}
	return n, err
""",(LZ,'''	"errors"
'''),'',
(FU,"""	p.value = value
	close(p.Done)"""),"""	p.value = value
	defer close(p.Done)"""),
]
