// logs of the drivers; the time of an event is its number
type Ev = Rc<RefCell<SimpleEvent>>;

fn event(name: Str, id: usize) -> Ev {
    Rc::new(RefCell::new(<SimpleEvent as Event>::new(name, DateTime::<Utc>::MIN_UTC + Duration::seconds(id as i64))))
}

fn id(e: &SimpleEvent) -> i64 {
    (*e.timestamp() - DateTime::<Utc>::MIN_UTC).num_seconds()
}

fn trace(j: &mut Job, next: &mut usize) -> SimpleTrace {
    let mut t = <SimpleTrace as Trace>::empty();
    for e in j.els() {
        *next += 1;
        Trace::push(&mut t, event(name_of(e), *next));
    }
    t
}

fn log(j: &mut Job, next: &mut usize) -> SimpleEventLog {
    let mut l = <SimpleEventLog as EventLog>::empty();
    for _ in 0..j.n() {
        EventLog::push(&mut l, Rc::new(RefCell::new(trace(j, next))));
    }
    l
}

fn names(j: &mut Job) -> Vec<Str> {
    j.els().into_iter().map(name_of).collect()
}

fn one(e: &SimpleEvent) -> String {
    format!("({:?}, {})", e.name(), id(e))
}

fn evs(t: &Vec<Ev>) -> String {
    format!("[{}]", t.iter().map(|e| one(&e.borrow())).collect::<Vec<_>>().join(", "))
}

fn list(x: Vec<String>) -> String {
    format!("[{}]", x.join(", "))
}

fn dump(l: &SimpleEventLog) -> String {
    list(l.traces().iter().map(|t| evs(t.borrow().events())).collect())
}
