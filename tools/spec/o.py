P('O01', "Observers: every attached live observer is told once, with current data",
  "For every history of attaching, dropping, changing data and notifying, a notification reaches every attached observer that is still alive exactly once, no dropped or unattached one, shows the data as it is now, and reports the error of an observer that refuses.",
  ['histories'], "every operation sequence of the bounded length over three observers on each of the three observable market-data types",
  "Tests attach one observer and notify it once; interleavings of attach, drop, change and failure are not exercised.",
  ['src/patterns/observer.rs', 'src/markets/forex/quotes/forwardpoints.rs', 'src/markets/termstructures/yieldcurve.rs', 'src/markets/interestrate/volsurface.rs'],
  [('notification', 'notify_observers of the three observables')],
  "explicit-state exploration: all operation sequences up to the bound replayed on the real objects against a model of the subscription list",
  "Complete to the stated depth. Attaching the same observer twice is outside the model, and after a refusal only the error and the absence of wrong or double notifications are required.", ['Observable::notify_observers'])
P('O02', "A curve observing market data always equals the curve of its last notice",
  "For every history of attaching and dropping curves, adding, removing and moving quotes, moving the valuation date and notifying, each curve holds exactly the pillars and valuation date of the data at its last notification (or its initial state), keeps answering from them while the data changes, and is left unchanged by other market data.",
  ['histories'], "every operation sequence of the bounded length over two curves",
  "Tests notify once.",
  ['src/markets/termstructures/yieldcurve.rs', 'src/markets/interestrate/volsurface.rs'],
  [('update', 'src/markets/termstructures/yieldcurve.rs Observer for YieldTermStructure')],
  "explicit-state exploration: all operation sequences up to the bound replayed on the real objects against a reference model, compared after every step",
  "Complete to the stated depth.", ['YieldTermStructure::update'])
P('S01', "Serialized objects come back meaning exactly the same",
  "Every serializable object - calendars and joint calendars, day counters, tenors, conventions, indices, curves, swaps, caps, FX trades - survives a round trip through JSON with the same text, the same dates, the same business days and the same values, and different markets never share one text.",
  ['inputs', 'configurations'], "every calendar and sub-market, day counter and small value type; every leg of the leg space in the bound; all pairs for FX trades",
  "Tests round-trip three objects and compare a few fields.",
  ['src/time/calendars.rs', 'src/time/daycounters.rs', 'src/derivatives/', 'src/markets/'],
  [('type tags', 'typetag attributes of calendars and day counters'), ('derived serializers', 'Serialize, Deserialize of trades and curves')],
  "exhaustive enumeration of the serializable configurations with behavioural comparison before and after the round trip",
  "Complete over the configurations stated; numbers are chosen so that JSON represents them exactly.", ['serde_json::to_string', 'serde_json::from_str'])
