// C23: the UDP adapter talks only to the first peer that sent data
package util

// lastAddr is only looked at and changed with the lock held, and changed only from nil: once set it stays.
// Taking the lock may reveal what other goroutines did meanwhile.
confined [C23] UDPReadWriteCloser: Mutex, lastAddr, udp
protocol peer
  ghost held = 0
  ghost a0 = nil
  ghost reads = 0
  ghost rn = 0
  ghost rerr = nil
  ghost raddr = nil
  ghost writes = 0
  ghost wn = 0
  ghost werr = nil
  ghost closes = 0
  ghost cerr = nil
  requires u.udp != nil
  on lock(mu) if same(mu, &u.Mutex) :: assert [C23] held != 1; havoc u.lastAddr; assume imp(a0 != nil, same(u.lastAddr, a0)); set held = 1; set a0 = u.lastAddr
  on unlock(mu) if same(mu, &u.Mutex) :: assert [C23] held == 1; set held = 2
  on load(a) if same(a, &u.lastAddr) :: assert [C23] held == 1
  on store(a, v) if same(a, &u.lastAddr) :: assert [C23] held == 1 && a0 == nil && reads == 1 && rerr == nil && id(v) == as(raddr, "*net.UDPAddr")
  on store(a, v) if same(a, &u.udp) :: assert [C23] false
  on call ReadFrom(r, p, n, ad, e) :: assert [C23] id(r) == id(u.udp) && reads == 0; set reads = 1; set rn = n; set rerr = e; set raddr = ad
  on call WriteTo(r, p, ad, n, e) :: assert [C23] id(r) == id(u.udp) && writes == 0 && held >= 1 && a0 != nil && as(ad, "*net.UDPAddr") == id(a0); set writes = 1; set wn = n; set werr = e
  on call Close(r, e) :: assert [C23] id(r) == id(u.udp) && closes == 0; set closes = 1; set cerr = e
  ensures [C23] held != 1

func UDPReadWriteCloser.Read(u, p) (n, err)
  props C23
  watch
  noframe
  use peer
  on call ReadFrom(r, q, n, ad, e) :: assert [C23] same(q, p); assume imp(e == nil, ad != nil)
  ensures [C23] reads == 1 && writes == 0 && closes == 0
  ensures [C23] n == rn && err == rerr
  ensures [C23] imp(err == nil && holds(raddr, "*net.UDPAddr"), held == 2)
  ensures [C23] imp(held == 2 && a0 != nil, same(u.lastAddr, a0))
  ensures [C23] imp(held == 2 && a0 == nil && err != nil, u.lastAddr == nil)
  ensures [C23] imp(held == 2 && a0 == nil && err == nil && holds(raddr, "*net.UDPAddr"), id(u.lastAddr) == as(raddr, "*net.UDPAddr"))

func UDPReadWriteCloser.Write(u, p) (n, err)
  props C23
  watch
  noframe
  use peer
  on call WriteTo(r, q, ad, n, e) :: assert [C23] same(q, p)
  ensures [C23] reads == 0 && closes == 0 && held == 2
  ensures [C23] imp(a0 == nil, writes == 0 && n == 0 && err == util.ErrNoAddress)
  ensures [C23] imp(a0 != nil, writes == 1 && n == wn && err == werr)
  ensures [C23] same(u.lastAddr, a0)

func UDPReadWriteCloser.Close(u) (err)
  props C23
  watch
  noframe
  use peer
  ensures [C23] reads == 0 && writes == 0 && closes == 1 && held == 0 && err == cerr

func NewUDPReadWriteCloser(address, port) (u, err)
  props C23
  ghost listens = 0
  ghost conn = nil
  ghost lerr = nil
  on call ListenPacket(c, e) :: assert [C23] listens == 0; set listens = 1; set conn = c; set lerr = e
  ensures [C23] listens == 1 && err == lerr
  ensures [C23] imp(err == nil, u != nil && fresh(u) && u.lastAddr == nil && id(u.udp) == id(conn))
  ensures [C23] imp(err != nil, u == nil)
