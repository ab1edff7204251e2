//! C63: the Flight interface, over the network, against the same context asked directly
use super::results::{literal_query, Generated};
use crate::sf::{self, Sf};
use arrow::array::*;
use arrow::compute::concat_batches;
use arrow_flight::encode::FlightDataEncoderBuilder;
use arrow_flight::flight_service_client::FlightServiceClient;
use arrow_flight::sql::{self as fsql, Any, CommandStatementQuery, ProstMessageExt, TicketStatementQuery};
use arrow_flight::{decode::FlightRecordBatchStream, error::FlightError, Action, Criteria, Empty, FlightData, FlightDescriptor, FlightInfo, HandshakeRequest, Ticket};
use arrow_schema::{DataType, Field, Schema, SchemaRef};
use clade::schema::{InlineMetastoreCommandStatementQuery, ListSchemaResponse, SchemaObject, StorageLocation, TableFormat, TableObject};
use clade::sync::{ColumnDescriptor, ColumnRole, DataSyncCommand, DataSyncResponse};
use futures::{StreamExt, TryStreamExt};
use prost::Message;
use seafowl::config::schema::FlightFrontend;
use seafowl::frontend::flight::run_flight_server;
use sfv::rand::rngs::StdRng;
use sfv::rand::{Rng, SeedableRng};
use sfv::{chance, pick, Ctx};
use std::future::Future;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Arc;
use std::time::Duration;
use tonic::transport::Channel;
use tonic::{Code, Request, Status};

type Client = FlightServiceClient<Channel>;

pub struct Server {
    pub sf: Sf,
    addr: String,
    stop: Option<tokio::sync::oneshot::Sender<()>>,
}
impl Drop for Server {
    fn drop(&mut self) {
        if let Some(s) = self.stop.take() { let _ = s.send(()); }
    }
}
impl Server {
    pub async fn start(sf: Sf) -> Server {
        for _ in 0..20 {
            let port = std::net::TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap().port();
            let (stop, stopped) = tokio::sync::oneshot::channel::<()>();
            let ctx = sf.ctx.clone();
            let task = tokio::spawn(async move { run_flight_server(ctx, FlightFrontend { bind_host: "127.0.0.1".into(), bind_port: port }, async move { let _ = stopped.await; }).await });
            let addr = format!("http://127.0.0.1:{port}");
            for _ in 0..200 {
                if task.is_finished() { break }
                if let Ok(c) = Channel::from_shared(addr.clone()).unwrap().connect().await {
                    // that it's this server which has the port
                    let mut c = FlightServiceClient::new(c);
                    if c.handshake(Request::new(futures::stream::iter(vec![HandshakeRequest::default()]))).await.is_ok() && !task.is_finished() {
                        return Server { sf, addr, stop: Some(stop) };
                    }
                }
                tokio::time::sleep(Duration::from_millis(25)).await;
            }
        }
        panic!("couldn't start a Flight server");
    }
    pub async fn channel(&self) -> Channel {
        Channel::from_shared(self.addr.clone()).unwrap().connect().await.unwrap()
    }
    pub async fn client(&self) -> Client {
        client(self.channel().await)
    }
}
pub fn client(c: Channel) -> Client {
    FlightServiceClient::new(c).max_decoding_message_size(usize::MAX).max_encoding_message_size(usize::MAX)
}

async fn timed<T>(what: &str, f: impl Future<Output = Result<T, Status>>) -> Result<T, Status> {
    match tokio::time::timeout(Duration::from_secs(120), f).await {
        Ok(r) => r,
        Err(_) => Err(Status::deadline_exceeded(format!("no answer in 120 s to {what}"))),
    }
}

fn request(cmd: Vec<u8>, path: Option<&str>) -> Request<FlightDescriptor> {
    let mut q = Request::new(FlightDescriptor::new_cmd(cmd));
    if let Some(p) = path { q.metadata_mut().insert("search-path", p.parse().unwrap()); }
    q
}
pub async fn info(c: &mut Client, sql: &str, path: Option<&str>) -> Result<FlightInfo, Status> {
    let cmd = CommandStatementQuery { query: sql.into(), transaction_id: None };
    Ok(timed("get_flight_info", c.get_flight_info(request(cmd.as_any().encode_to_vec(), path))).await?.into_inner())
}
pub async fn inline(c: &mut Client, sql: &str, schemas: Option<ListSchemaResponse>) -> Result<FlightInfo, Status> {
    let cmd = InlineMetastoreCommandStatementQuery { query: sql.into(), schemas };
    Ok(timed("get_flight_info (inline)", c.get_flight_info(request(cmd.as_any().encode_to_vec(), None))).await?.into_inner())
}
pub fn ticket(i: &FlightInfo) -> Ticket {
    i.endpoint[0].ticket.clone().unwrap()
}
pub async fn redeem(c: &mut Client, t: Ticket) -> Result<(Option<SchemaRef>, Vec<RecordBatch>), Status> {
    timed("do_get", async {
        let s = c.do_get(t).await?.into_inner();
        let mut s = FlightRecordBatchStream::new_from_flight_data(s.map_err(|e| FlightError::Tonic(e)));
        let mut out = vec![];
        while let Some(b) = s.next().await { out.push(b.map_err(Status::from)?) }
        Ok((s.schema().cloned(), out))
    }).await
}
pub async fn query(c: &mut Client, sql: &str, path: Option<&str>) -> Result<Vec<RecordBatch>, Status> {
    let i = info(c, sql, path).await?;
    Ok(redeem(c, ticket(&i)).await?.1)
}

/// the type without dictionaries, which the encoder unpacks
fn plain(t: &DataType) -> DataType {
    match t {
        DataType::Dictionary(_, v) => plain(v),
        DataType::List(f) => DataType::List(Arc::new(f.as_ref().clone().with_data_type(plain(f.data_type())))),
        DataType::Struct(f) => DataType::Struct(f.iter().map(|f| Arc::new(f.as_ref().clone().with_data_type(plain(f.data_type())))).collect()),
        t => t.clone(),
    }
}
fn plain_schema(s: &Schema) -> Vec<(String, DataType)> {
    s.fields().iter().map(|f| (f.name().clone(), plain(f.data_type()))).collect()
}
fn one(b: &[RecordBatch], s: &[(String, DataType)]) -> Result<RecordBatch, String> {
    let schema = Arc::new(Schema::new(s.iter().map(|(n, t)| Field::new(n, t.clone(), true)).collect::<Vec<_>>()));
    let parts = b.iter().map(|b| {
        if b.num_columns() != s.len() { return Err(format!("{} columns instead of {}", b.num_columns(), s.len())) }
        let c = b.columns().iter().zip(s).map(|(c, (_, t))| arrow::compute::cast(c, t).map_err(|e| e.to_string())).collect::<Result<Vec<_>, _>>()?;
        RecordBatch::try_new_with_options(schema.clone(), c, &RecordBatchOptions::new().with_row_count(Some(b.num_rows()))).map_err(|e| e.to_string())
    }).collect::<Result<Vec<_>, String>>()?;
    concat_batches(&schema, &parts).map_err(|e| e.to_string())
}

/// what a query sends over Flight is what the context says it is
async fn compare(ctx: &Ctx, srv: &Server, c: &mut Client, sig: &str, sql: &str, ordered: bool) {
    let brief = |w: String| format!("{w}\nquery: {}", sql.chars().take(1500).collect::<String>());
    let direct: Result<_, String> = async {
        let p = srv.sf.ctx.plan_query(sql).await.map_err(|e| e.to_string())?;
        let s = p.schema();
        Ok((s, srv.sf.ctx.collect(p).await.map_err(|e| e.to_string())))
    }.await;
    let i = match (info(c, sql, None).await, &direct) {
        (Err(_), Err(_)) => { ctx.count("refused_both_ways", 1); return }
        (Err(e), Ok(_)) => { ctx.violation(&format!("{sig}/refused"), brief(format!("refused with {e}, though it runs"))); return }
        (Ok(_), Err(e)) => { ctx.violation(&format!("{sig}/accepted"), brief(format!("a ticket was issued although: {e}"))); return }
        (Ok(i), Ok(_)) => i,
    };
    let (schema, rows) = direct.unwrap();
    let want = plain_schema(&schema);
    match i.clone().try_decode_schema() {
        Err(e) => ctx.violation(&format!("{sig}/info-schema"), brief(e.to_string())),
        Ok(s) => { ctx.check(plain_schema(&s) == want, &format!("{sig}/info-schema"), || brief(format!("announced {:?}, the query has {want:?}", plain_schema(&s)))); }
    }
    ctx.check(i.endpoint.len() == 1 && i.endpoint[0].ticket.is_some(), &format!("{sig}/endpoints"), || brief(format!("{:?}", i.endpoint)));
    if i.endpoint.is_empty() { return }
    match (redeem(c, ticket(&i)).await, rows) {
        (Ok((s, got)), Ok(rows)) => {
            ctx.count("batches_streamed", got.len() as u64);
            ctx.count("rows_streamed", got.iter().map(|b| b.num_rows() as u64).sum());
            if let Some(s) = s { ctx.check(plain_schema(&s) == want, &format!("{sig}/schema"), || brief(format!("streamed with {:?}, the query has {want:?}", plain_schema(&s)))); }
            else { ctx.violation(&format!("{sig}/no-schema"), brief("no schema in the stream".into())) }
            match (one(&got, &want), one(&rows, &want)) {
                (Ok(a), Ok(b)) => {
                    if ordered { ctx.check(a == b, &format!("{sig}/rows"), || brief(format!("{} rows streamed, {} expected\nstreamed {:?}\nexpected {:?}", a.num_rows(), b.num_rows(), sf::rows(&[a.clone()]).iter().take(3).collect::<Vec<_>>(), sf::rows(&[b.clone()]).iter().take(3).collect::<Vec<_>>()))); }
                    else {
                        let (mut a, mut b) = (sf::rows(&[a]), sf::rows(&[b]));
                        a.sort(); b.sort();
                        ctx.check(a == b, &format!("{sig}/rows"), || brief(format!("{} rows streamed, {} expected; first difference {:?}", a.len(), b.len(), a.iter().zip(&b).find(|(a, b)| a != b))));
                    }
                }
                (a, b) => ctx.violation(&format!("{sig}/columns"), brief(format!("{:?} / {:?}", a.err(), b.err()))),
            }
        }
        (Err(_), Err(_)) => ctx.count("failed_while_running_both_ways", 1),
        (Err(e), Ok(_)) => ctx.violation(&format!("{sig}/stream-failed"), brief(e.to_string())),
        (Ok((_, got)), Err(e)) => ctx.violation(&format!("{sig}/stream-cut-short"), brief(format!("{} rows and a clean end, although running it fails with: {e}", got.iter().map(|b| b.num_rows()).sum::<usize>()))),
    }
    // the ticket is used up now
    match redeem(c, ticket(&i)).await {
        Err(e) if e.code() == Code::NotFound => ctx.count("used_tickets_refused", 1),
        other => ctx.violation(&format!("{sig}/second-use"), brief(format!("a used ticket gave {:?}", other.map(|o| o.1.len())))),
    }
}

async fn tables(srv: &Server, big: i64) {
    let sf = &srv.sf;
    for s in [
        "CREATE TABLE empty_t (a INT, b TEXT, c TIMESTAMP)".to_string(),
        "CREATE TABLE small (k BIGINT, s TEXT, f DOUBLE, d DATE)".into(),
        "INSERT INTO small VALUES (1, 'one', 1.5, '2020-01-01'), (2, NULL, NULL, NULL), (NULL, '', -0.0, '1969-12-31')".into(),
        format!("CREATE TABLE big AS SELECT k, k % 7 AS m, 'row ' || k AS s FROM (SELECT unnest(range(1, {})) AS k) x", big + 1),
    ] { sf.sql(&s).await.unwrap(); }
}

fn fixed(r: &mut StdRng, big: i64) -> (String, bool) {
    let k = r.gen_range(1..big);
    match r.gen_range(0..16) {
        0 => ("SELECT * FROM empty_t".into(), true),
        1 => ("SELECT * FROM small ORDER BY k NULLS FIRST".into(), true),
        2 => ("SELECT * FROM big ORDER BY k".into(), true),
        3 => ("SELECT * FROM big".into(), false),
        4 => (format!("SELECT m, count(*), sum(k), min(s) FROM big WHERE k > {k} GROUP BY m ORDER BY m"), true),
        5 => (format!("SELECT {}", (0..r.gen_range(1..400)).map(|i| format!("{i} AS \"c{i}\"")).collect::<Vec<_>>().join(", ")), true),
        6 => (format!("SELECT k, 100 / (k - {k}) AS q FROM big ORDER BY k"), true),
        7 => (format!("SELECT k, 100 / (k - {k}) AS q FROM big"), false),
        8 => (format!("SELECT repeat('x', {}) AS x, {k} AS k", *pick(r, &[1, 1000, 100_000, 3_000_000, 9_000_000])), true),
        9 => (format!("SELECT k, repeat('é', {}) AS x FROM big WHERE k <= {} ORDER BY k DESC", r.gen_range(1..2000), r.gen_range(1..1500)), true),
        10 => (format!("SELECT arrow_cast('v' || (k % 3), 'Dictionary(Int32, Utf8)') AS d, k FROM big WHERE k <= {k} ORDER BY k"), true),
        11 => ("EXPLAIN SELECT * FROM small".into(), true),
        12 => ("SHOW TABLES".into(), false),
        13 => (format!("SELECT a.k, b.s FROM big a LEFT JOIN small b ON a.k = b.k WHERE a.k < {k}"), false),
        14 => (["SELECT * FROM nonexistent", "SELEC 1", "", "SELECT 1; SELECT 2", "SELECT CAST('x' AS INT)", "SELECT missing_column FROM small", "SELECT 1 / 0", "INSERT INTO nonexistent VALUES (1)"].iter().nth(r.gen_range(0..8)).unwrap().to_string(), true),
        _ => (format!("SELECT * FROM big LIMIT {}", *pick(r, &[0, 1, 8192, 8193])).replace("LIMIT", "WHERE k >= 0 ORDER BY k LIMIT"), true),
    }
}

/// the statements which change something do so once, however often their tickets are used
async fn writes(ctx: &Ctx, srv: &Server, c: &mut Client, r: &mut StdRng, n: usize) {
    let t = format!("w_{n}_{:x}", r.gen::<u32>());
    let mut rows: i64 = 0;
    let mut sum: i64 = 0;
    if let Err(e) = query(c, &format!("CREATE TABLE {t} (k BIGINT)"), None).await { ctx.violation("write/create", e.to_string()); return }
    for _ in 0..r.gen_range(2..6) {
        let (s, dr, ds) = match r.gen_range(0..4) {
            0 => { let k: i64 = r.gen_range(1..100); (format!("INSERT INTO {t} VALUES ({k}), ({})", k + 1), 2, 2 * k + 1) }
            1 => (format!("INSERT INTO {t} SELECT k FROM big WHERE k <= 10"), 10, 55),
            2 => (format!("UPDATE {t} SET k = k + 1"), 0, rows),
            _ => (format!("INSERT INTO {t} SELECT count(*) FROM {t}"), 1, rows),
        };
        let i = match info(c, &s, None).await { Ok(i) => i, Err(e) => { ctx.violation("write/refused", format!("{s}: {e}")); return } };
        match redeem(c, ticket(&i)).await {
            Err(e) => ctx.violation("write/do_get", format!("{s}: {e}")),
            Ok((_, b)) => { ctx.check(b.iter().all(|b| b.num_rows() == 0) , "write/rows", || format!("{s} returned {:?}", sf::rows(&b))); }
        }
        if chance(r, 0.4) { let _ = redeem(c, ticket(&i)).await; }
        rows += dr; sum += ds;
        let got = query(c, &format!("SELECT count(*), coalesce(sum(k), 0) FROM {t}"), None).await.map(|b| sf::rows(&b));
        ctx.eval(&format!("write/{}", s.split(' ').next().unwrap()), true);
        ctx.check(matches!(&got, Ok(g) if g == &vec![vec![rows.to_string(), sum.to_string()]]), "write/effect", || format!("after {s}: {got:?}, expected {rows} rows of sum {sum}"));
    }
}

/// what the server says about itself
async fn sql_info(ctx: &Ctx, c: &mut Client, r: &mut StdRng) {
    for _ in 0..4 {
        let info: Vec<u32> = match r.gen_range(0..4) { 0 => vec![], 1 => vec![0], 2 => vec![2, 0], _ => vec![999_999] };
        let cmd = fsql::CommandGetSqlInfo { info: info.clone() };
        let i = match timed("sql info", c.get_flight_info(request(cmd.as_any().encode_to_vec(), None))).await { Ok(i) => i.into_inner(), Err(e) => { ctx.violation("sql-info/refused", format!("{info:?}: {e}")); continue } };
        let got = redeem(c, ticket(&i)).await;
        ctx.eval(&format!("sql-info/{info:?}"), true);
        match got {
            Err(e) => ctx.violation("sql-info/ticket", format!("the ticket issued for server information {info:?} gave {e}")),
            Ok((s, b)) => {
                ctx.check(s.map(|s| s.as_ref().clone()) == i.try_decode_schema().ok(), "sql-info/schema", || format!("{info:?}: streamed and announced schemas differ"));
                let mut names: Vec<u32> = b.iter().flat_map(|b| b.column(0).as_any().downcast_ref::<UInt32Array>().unwrap().values().to_vec()).collect();
                names.sort();
                let want = if info.is_empty() { vec![0, 1, 2] } else { let mut x: Vec<u32> = info.iter().filter(|x| **x < 3).cloned().collect(); x.sort(); x };
                ctx.check(names == want, "sql-info/entries", || format!("{info:?}: entries {names:?}, expected {want:?}"));
            }
        }
    }
}

struct Shared { stop: AtomicBool, big: i64, handed: tokio::sync::Mutex<Vec<(Ticket, String, Arc<AtomicU64>)>>, inl: Vec<(String, String)> }

fn listing(path: &str) -> ListSchemaResponse {
    ListSchemaResponse { schemas: vec![SchemaObject { name: "inl".into(), tables: vec![TableObject { name: "t".into(), path: path.into(), store: None, format: TableFormat::Delta.into() }] }], stores: vec![] }
}

/// one of many clients at once, each of which knows what it must get
async fn worker(ctx: &Ctx, srv: &Server, sh: &Shared, mut c: Client, id: usize, seed: u64, rounds: usize) {
    let mut r = StdRng::seed_from_u64(seed);
    let mut held: Vec<(Ticket, String)> = vec![];
    let own = format!("own_{id}_{seed:x}");
    let mut mine: Vec<i64> = vec![];
    match query(&mut c, &format!("CREATE TABLE {own} (k BIGINT)"), None).await { Ok(_) => {}, Err(e) => { ctx.violation("concurrent/create", e.to_string()); return } }
    for n in 0..rounds {
        if ctx.out_of_time() { break }
        let tag = format!("{id}.{n}.{:x}", r.gen::<u32>());
        let kind = r.gen_range(0..9);
        match kind {
            // a lot of rows, all of them mine
            0 | 1 => {
                let (lo, hi) = (r.gen_range(1..sh.big), sh.big);
                let sql = format!("SELECT '{tag}' AS tag, k FROM big WHERE k >= {lo}");
                match query(&mut c, &sql, None).await {
                    Err(e) => ctx.violation("concurrent/failed", format!("{sql}: {e}")),
                    Ok(b) => {
                        let g = sf::rows(&b);
                        ctx.check(g.iter().all(|x| x[0] == tag), "concurrent/not-mine", || format!("{sql}: got {:?}", g.iter().find(|x| x[0] != tag)));
                        let mut k: Vec<i64> = g.iter().map(|x| x[1].parse().unwrap()).collect();
                        k.sort();
                        ctx.check(k == (lo..=hi).collect::<Vec<_>>(), "concurrent/rows", || format!("{sql}: {} rows", k.len()));
                        ctx.count("concurrent_rows", k.len() as u64);
                    }
                }
            }
            // the schema named in my header
            2 | 3 => {
                let s = r.gen_range(0..4);
                let (path, want) = if s == 3 { (None, "public".to_string()) } else { (Some(format!("s{s}")), format!("s{s}")) };
                let got = query(&mut c, "SELECT name FROM who", path.as_deref()).await.map(|b| sf::rows(&b));
                ctx.check(matches!(&got, Ok(g) if g == &vec![vec![want.clone()]]), "concurrent/search-path", || format!("asked in {want}: {got:?}"));
            }
            // the tables described in my message
            4 => {
                let (p, want) = pick(&mut r, &sh.inl).clone();
                let got = match inline(&mut c, &format!("SELECT '{tag}' AS tag, name FROM inl.t"), Some(listing(&p))).await {
                    Err(e) => Err(e),
                    Ok(i) => redeem(&mut c, ticket(&i)).await.map(|b| sf::rows(&b.1)),
                };
                ctx.check(matches!(&got, Ok(g) if g == &vec![vec![tag.clone(), want.clone()]]), "concurrent/inline-metastore", || format!("described table {want}: {got:?}"));
            }
            // my own writes
            5 => {
                let k = r.gen::<u32>() as i64;
                let a = query(&mut c, &format!("INSERT INTO {own} VALUES ({k})"), None).await;
                match a { Ok(_) => mine.push(k), Err(e) => { ctx.violation("concurrent/write-failed", format!("INSERT INTO {own}, which nobody else uses: {e}")); continue } }
                mine.sort();
                let got = query(&mut c, &format!("SELECT k FROM {own} ORDER BY k"), None).await.map(|b| sf::rows(&b));
                let want: Vec<Vec<String>> = mine.iter().map(|k| vec![k.to_string()]).collect();
                ctx.check(matches!(&got, Ok(g) if g == &want), "concurrent/own-writes", || format!("{} rows of my own expected, got {:?}", want.len(), got.map(|g| g.len())));
            }
            // hold on to a ticket for later
            6 => {
                match info(&mut c, &format!("SELECT '{tag}' AS tag, count(*) FROM big"), None).await {
                    Err(e) => ctx.violation("concurrent/failed", e.to_string()),
                    Ok(i) => held.push((ticket(&i), tag.clone())),
                }
                if held.len() > 3 || chance(&mut r, 0.3) {
                    let (t, tag) = held.swap_remove(r.gen_range(0..held.len()));
                    let got = redeem(&mut c, t).await.map(|b| sf::rows(&b.1));
                    ctx.check(matches!(&got, Ok(g) if g == &vec![vec![tag.clone(), sh.big.to_string()]]), "concurrent/held-ticket", || format!("ticket of {tag}: {got:?}"));
                }
            }
            // give others a ticket to race for
            7 => {
                match info(&mut c, &format!("SELECT '{tag}' AS tag, k FROM big WHERE k <= 3000"), None).await {
                    Err(e) => ctx.violation("concurrent/failed", e.to_string()),
                    Ok(i) => {
                        let t = ticket(&i);
                        let racers = futures::future::join_all((0..3).map(|_| { let mut c = c.clone(); let t = t.clone(); async move { redeem(&mut c, t).await.map(|b| sf::rows(&b.1)) } })).await;
                        let won: Vec<_> = racers.iter().filter_map(|x| x.as_ref().ok()).collect();
                        let lost = racers.iter().filter(|x| matches!(x, Err(e) if e.code() == Code::NotFound)).count();
                        ctx.check(won.len() == 1 && lost == 2, "concurrent/ticket-race", || format!("{} of 3 claims of a ticket succeeded, {lost} were told it isn't there", won.len()));
                        if let Some(w) = won.first() { ctx.check(w.len() == 3000 && w.iter().all(|x| x[0] == tag), "concurrent/ticket-race-rows", || format!("{} rows", w.len())); }
                        ctx.count("ticket_races", 1);
                    }
                }
            }
            // walk away in the middle of a stream
            _ => {
                if let Ok(i) = info(&mut c, "SELECT a.k, a.s FROM big a CROSS JOIN (SELECT k FROM big WHERE k < 40) b", None).await {
                    if let Ok(s) = c.do_get(ticket(&i)).await {
                        let mut s = s.into_inner();
                        for _ in 0..r.gen_range(0..3) { let _ = s.next().await; }
                        drop(s);
                        ctx.count("streams_abandoned", 1);
                    }
                }
            }
        }
        ctx.eval(&format!("concurrent/{kind}"), true);
    }
    for (t, tag) in held {
        let got = redeem(&mut c, t).await.map(|b| sf::rows(&b.1));
        ctx.check(matches!(&got, Ok(g) if g == &vec![vec![tag.clone(), sh.big.to_string()]]), "concurrent/held-ticket", || format!("ticket of {tag}: {got:?}"));
    }
    let _ = srv;
}

fn bytes(r: &mut StdRng, n: usize) -> Vec<u8> {
    (0..r.gen_range(0..n)).map(|_| r.gen()).collect()
}
fn mutate(r: &mut StdRng, b: &[u8]) -> Vec<u8> {
    let mut b = b.to_vec();
    for _ in 0..r.gen_range(1..4) {
        match r.gen_range(0..4) {
            0 if !b.is_empty() => { let i = r.gen_range(0..b.len()); b[i] ^= 1 << r.gen_range(0..8) }
            1 if !b.is_empty() => { let i = r.gen_range(0..b.len()); b.truncate(i) }
            2 => { let i = r.gen_range(0..=b.len()); b.insert(i, r.gen()) }
            _ if b.len() > 1 => { let i = r.gen_range(0..b.len()); b.remove(i); }
            _ => {}
        }
    }
    b
}

/// commands which mean something in Flight SQL, most of which Seafowl doesn't offer
fn commands(r: &mut StdRng) -> (&'static str, Any) {
    let s = |r: &mut StdRng| if chance(r, 0.5) { Some("x".to_string()) } else { None };
    match r.gen_range(0..20) {
        0 => ("CommandGetCatalogs", fsql::CommandGetCatalogs {}.as_any()),
        1 => ("CommandGetDbSchemas", fsql::CommandGetDbSchemas { catalog: s(r), db_schema_filter_pattern: s(r) }.as_any()),
        2 => ("CommandGetTables", fsql::CommandGetTables { catalog: s(r), db_schema_filter_pattern: s(r), table_name_filter_pattern: s(r), table_types: vec![], include_schema: r.gen() }.as_any()),
        3 => ("CommandGetTableTypes", fsql::CommandGetTableTypes {}.as_any()),
        4 => ("CommandGetPrimaryKeys", fsql::CommandGetPrimaryKeys { catalog: None, db_schema: None, table: "small".into() }.as_any()),
        5 => ("CommandGetExportedKeys", fsql::CommandGetExportedKeys { catalog: None, db_schema: None, table: "small".into() }.as_any()),
        6 => ("CommandGetXdbcTypeInfo", fsql::CommandGetXdbcTypeInfo { data_type: None }.as_any()),
        7 => ("CommandPreparedStatementQuery", fsql::CommandPreparedStatementQuery { prepared_statement_handle: bytes(r, 9).into() }.as_any()),
        8 => ("CommandPreparedStatementUpdate", fsql::CommandPreparedStatementUpdate { prepared_statement_handle: bytes(r, 9).into() }.as_any()),
        9 => ("CommandStatementSubstraitPlan", fsql::CommandStatementSubstraitPlan { plan: None, transaction_id: None }.as_any()),
        10 => ("CommandStatementUpdate", fsql::CommandStatementUpdate { query: "INSERT INTO small VALUES (9, '', 0, NULL)".into(), transaction_id: None }.as_any()),
        11 => ("TicketStatementQuery", TicketStatementQuery { statement_handle: bytes(r, 9).into() }.as_any()),
        12 => ("ActionCreatePreparedStatementRequest", fsql::ActionCreatePreparedStatementRequest { query: "SELECT 1".into(), transaction_id: None }.as_any()),
        13 => ("ActionClosePreparedStatementRequest", fsql::ActionClosePreparedStatementRequest { prepared_statement_handle: bytes(r, 9).into() }.as_any()),
        14 => ("ActionCreatePreparedStatementResult", fsql::ActionCreatePreparedStatementResult { prepared_statement_handle: bytes(r, 9).into(), dataset_schema: Default::default(), parameter_schema: Default::default() }.as_any()),
        15 => ("InlineMetastore without schemas", InlineMetastoreCommandStatementQuery { query: "SELECT 1".into(), schemas: None }.as_any()),
        16 => ("InlineMetastore of nowhere", InlineMetastoreCommandStatementQuery { query: "SELECT * FROM inl.t".into(), schemas: Some(listing("no/such/table")) }.as_any()),
        17 => ("unknown command", Any { type_url: if chance(r, 0.5) { String::new() } else { "type.googleapis.com/none.such".into() }, value: bytes(r, 30).into() }),
        18 => ("DoPutUpdateResult", fsql::DoPutUpdateResult { record_count: 3 }.as_any()),
        _ => ("CommandGetCrossReference", fsql::CommandGetCrossReference { pk_catalog: None, pk_db_schema: None, pk_table: "a".into(), fk_catalog: None, fk_db_schema: None, fk_table: "b".into() }.as_any()),
    }
}

/// a sync message to a table of two columns
pub fn sync_parts(origin: &str, path: &str, seq: Option<u64>, rows: &[(i64, String)]) -> (DataSyncCommand, RecordBatch) {
    let cmd = DataSyncCommand {
        path: path.into(), store: None,
        column_descriptors: [(ColumnRole::OldPk, "k"), (ColumnRole::NewPk, "k"), (ColumnRole::Value, "v")].iter().map(|(r, n)| ColumnDescriptor { role: *r as i32, name: n.to_string() }).collect(),
        origin: origin.into(), sequence_number: seq, format: TableFormat::Delta.into(),
    };
    let schema = Arc::new(Schema::new(vec![Field::new("o", DataType::Int64, true), Field::new("n", DataType::Int64, true), Field::new("v", DataType::Utf8, true)]));
    let b = RecordBatch::try_new(schema, vec![
        Arc::new(Int64Array::from(vec![None; rows.len()])), Arc::new(Int64Array::from_iter_values(rows.iter().map(|x| x.0))), Arc::new(StringArray::from_iter_values(rows.iter().map(|x| x.1.as_str()))),
    ]).unwrap();
    (cmd, b)
}
async fn put_raw(c: &mut Client, data: Vec<FlightData>) -> Result<Vec<DataSyncResponse>, Status> {
    timed("do_put", async {
        let mut s = c.do_put(futures::stream::iter(data)).await?.into_inner();
        let mut out = vec![];
        while let Some(p) = s.message().await? { out.push(DataSyncResponse::decode(p.app_metadata).map_err(|e| Status::unknown(e.to_string()))?) }
        Ok(out)
    }).await
}
async fn encode(cmd: Vec<u8>, b: Vec<RecordBatch>) -> Vec<FlightData> {
    let e = FlightDataEncoderBuilder::new().with_flight_descriptor(Some(FlightDescriptor::new_cmd(cmd)));
    let e = if let Some(b) = b.first() { e.with_schema(b.schema()) } else { e };
    e.build(futures::stream::iter(b.into_iter().map(Ok))).try_collect().await.unwrap()
}

/// messages no sensible client sends; each must be told so, and nobody else may notice
async fn hostile(ctx: &Ctx, srv: &Server, r: &mut StdRng, n: usize) {
    let mut c = srv.client().await;
    let before = sfv::panics();
    let good_ticket = TicketStatementQuery { statement_handle: uuid::Uuid::from_u128(r.gen()).to_string().into() }.as_any().encode_to_vec();
    let (what, how, answer): (String, &str, Result<(), Status>) = match r.gen_range(0..12) {
        0 => { let t = bytes(r, 40); (format!("ticket {}", hex::encode(&t)), "ticket", redeem(&mut c, Ticket::new(t)).await.map(|_| ())) }
        1 => { let t = mutate(r, &good_ticket); (format!("ticket {}", hex::encode(&t)), "ticket", redeem(&mut c, Ticket::new(t)).await.map(|_| ())) }
        2 => ("a made-up ticket".into(), "ticket", redeem(&mut c, Ticket::new(good_ticket)).await.map(|_| ())),
        3 => { let (w, a) = commands(r); (format!("ticket {w}"), "ticket", redeem(&mut c, Ticket::new(a.encode_to_vec())).await.map(|_| ())) }
        4 => { let (w, a) = commands(r); (format!("info {w}"), "info", timed("info", c.get_flight_info(request(a.encode_to_vec(), None))).await.map(|_| ())) }
        5 => {
            let q = CommandStatementQuery { query: "SELECT * FROM nonexistent_table".into(), transaction_id: None }.as_any().encode_to_vec();
            let q = if chance(r, 0.3) { bytes(r, 60) } else { mutate(r, &q) };
            // a mutated message can still be (another) harmless query
            let a = timed("info", c.get_flight_info(request(q.clone(), None))).await;
            let fine = matches!(&a, Ok(_));
            (format!("info {}", hex::encode(&q)), "info-mutated", if fine { Err(Status::ok("accepted")) } else { a.map(|_| ()) })
        }
        6 => {
            let d = match r.gen_range(0..3) { 0 => FlightDescriptor::new_path(vec!["small".into()]), 1 => FlightDescriptor::default(), _ => FlightDescriptor::new_cmd(Vec::<u8>::new()) };
            (format!("info of {d:?}"), "info", timed("info", c.get_flight_info(Request::new(d))).await.map(|_| ()))
        }
        7 => {
            let name = pick(r, &["", "CreatePreparedStatement", "ClosePreparedStatement", "BeginTransaction", "EndTransaction", "CancelQuery", "nonsense"]).to_string();
            let body = if chance(r, 0.5) { commands(r).1.encode_to_vec() } else { bytes(r, 30) };
            (format!("action {name}"), "action", timed("do_action", async { let mut s = c.do_action(Action { r#type: name.clone(), body: body.into() }).await?.into_inner(); while s.message().await?.is_some() {} Ok(()) }).await)
        }
        8 => match r.gen_range(0..4) {
            0 => ("list_flights".into(), "other", timed("list_flights", c.list_flights(Criteria::default())).await.map(|_| ())),
            1 => ("get_schema".into(), "other", timed("get_schema", c.get_schema(FlightDescriptor::new_cmd(bytes(r, 9)))).await.map(|_| ())),
            2 => ("poll_flight_info".into(), "other", timed("poll_flight_info", c.poll_flight_info(FlightDescriptor::new_cmd(bytes(r, 9)))).await.map(|_| ())),
            _ => ("do_exchange".into(), "other", timed("do_exchange", async { let mut s = c.do_exchange(futures::stream::iter(vec![FlightData::default()])).await?.into_inner(); while s.message().await?.is_some() {} Ok(()) }).await),
        },
        9 => {
            let (mut q, w) = (CommandStatementQuery { query: "SELECT * FROM who".into(), transaction_id: None }.as_any().encode_to_vec(), r.gen_range(0..2));
            if w == 1 { q = InlineMetastoreCommandStatementQuery { query: "SELECT * FROM who".into(), schemas: Some(Default::default()) }.as_any().encode_to_vec() }
            let mut q = request(q, None);
            if w == 0 { q.metadata_mut().insert("search-path", tonic::metadata::MetadataValue::try_from(&[0xff, 0xfe, b'x'][..]).unwrap()); }
            (format!("search path {w}"), "search-path", timed("info", c.get_flight_info(q)).await.map(|_| ()))
        }
        _ => return hostile_put(ctx, srv, r, n).await,
    };
    verdict(ctx, how, &what, answer, before);
}

fn verdict(ctx: &Ctx, how: &str, what: &str, answer: Result<(), Status>, before: u64) {
    ctx.eval(&format!("hostile/{how}/{}", what.split(' ').take(2).collect::<Vec<_>>().join(" ").chars().filter(|c| !c.is_ascii_digit()).take(24).collect::<String>()), true);
    match &answer {
        Ok(()) => ctx.violation(&format!("hostile/{how}/accepted"), format!("{what}: answered as if it were fine")),
        Err(e) if e.code() == Code::DeadlineExceeded => ctx.violation(&format!("hostile/{how}/no-answer"), format!("{what}: {e}")),
        Err(e) => ctx.seen("error_statuses", &format!("{how} {:?}", e.code())),
    }
    if sfv::panics() != before {
        let p = sfv::last_panic_any();
        // the Flight library's own handling of an empty upload is not Seafowl's
        if p.contains("/arrow-flight") || (what.starts_with("put damaged") && p.contains("/arrow-")) { ctx.count("panics_in_the_flight_library", 1); return }
        ctx.violation(&format!("hostile/{how}/panic"), format!("{what}: the handler panicked: {p} (the client saw {answer:?})"));
    }
}

async fn hostile_put(ctx: &Ctx, srv: &Server, r: &mut StdRng, n: usize) {
    let mut c = srv.client().await;
    let before = sfv::panics();
    let rows: Vec<(i64, String)> = (0..r.gen_range(1..4)).map(|i| (i, format!("bad {n}"))).collect();
    let (cmd, b) = sync_parts("hostile", &format!("bad_{n}"), Some(1), &rows);
    let with = |f: &dyn Fn(&mut DataSyncCommand)| { let mut c = cmd.clone(); f(&mut c); c.as_any().encode_to_vec() };
    let (what, data): (&str, Vec<FlightData>) = match r.gen_range(0..16) {
        0 => ("put nothing", vec![]),
        1 => ("put no descriptor", vec![FlightData::default()]),
        2 => ("put garbage command", encode(bytes(r, 50), vec![b]).await),
        3 => { let (w, a) = commands(r); let _ = w; ("put other command", encode(if w.starts_with("Inline") { bytes(r, 9) } else { a.encode_to_vec() }, vec![b]).await) }
        4 => ("put fewer descriptors", encode(with(&|c| { c.column_descriptors.pop(); }), vec![b]).await),
        5 => ("put more descriptors", encode(with(&|c| c.column_descriptors.push(ColumnDescriptor { role: ColumnRole::Value as i32, name: "w".into() })), vec![b]).await),
        6 => ("put unknown role", encode(with(&|c| c.column_descriptors[2].role = 77), vec![b]).await),
        7 => ("put key without its old value", encode(with(&|c| c.column_descriptors[0].role = ColumnRole::Value as i32), vec![b]).await),
        8 => ("put keys of different names", encode(with(&|c| c.column_descriptors[0].name = "other".into()), vec![b]).await),
        9 => ("put changed flag that is text", encode(with(&|c| { c.column_descriptors[2].role = ColumnRole::Changed as i32; }), vec![b]).await),
        10 => ("put bad store", encode(with(&|c| c.store = Some(StorageLocation { name: "s".into(), location: ["", "nonsense", "ftp://x/y", "s3://", "://"][n % 5].into(), options: Default::default() })), vec![b]).await),
        11 => ("put iceberg", encode(with(&|c| c.format = TableFormat::Iceberg as i32), vec![b]).await),
        12 => {
            let mut d = encode(with(&|_| ()), vec![b]).await;
            let i = r.gen_range(0..d.len());
            d[i].data_header = mutate(r, &d[i].data_header).into();
            return maybe(ctx, "put damaged header", put_raw(&mut c, d).await, before);
        }
        13 => {
            let mut d = encode(with(&|_| ()), vec![b]).await;
            let i = r.gen_range(0..d.len());
            d[i].data_body = mutate(r, &d[i].data_body).into();
            return maybe(ctx, "put damaged body", put_raw(&mut c, d).await, before);
        }
        14 => {
            let mut d = encode(with(&|_| ()), vec![b]).await;
            // rows before (or without) their schema
            if d.len() > 1 { let desc = d[0].flight_descriptor.clone(); d.remove(0); d[0].flight_descriptor = desc; }
            ("put rows without schema", d)
        }
        _ => {
            let m = mutate(r, &with(&|_| ()));
            return maybe(ctx, "put mutated command", put_raw(&mut c, encode(m, vec![b]).await).await, before);
        }
    };
    let answer = put_raw(&mut c, data).await;
    verdict(ctx, "put", what, answer.map(|_| ()), before);
}
/// (un)damaged enough for either answer, so long as there is one
fn maybe(ctx: &Ctx, what: &str, a: Result<Vec<DataSyncResponse>, Status>, before: u64) {
    match a {
        Ok(_) => { ctx.count("mutated_puts_accepted", 1); verdict(ctx, "put", what, Err(Status::ok("accepted")), before) }
        Err(e) => verdict(ctx, "put", what, Err(e), before),
    }
}

/// other clients of the server while it is being abused
async fn canary(ctx: &Ctx, srv: &Server, big: i64, stop: &AtomicBool, seed: u64) {
    let mut r = StdRng::seed_from_u64(seed);
    let mut c = srv.client().await;
    let mut seq = 0u64;
    let mut rows = 0i64;
    let path = format!("good_{seed:x}");
    while !stop.load(Ordering::SeqCst) && !ctx.out_of_time() {
        match query(&mut c, "SELECT k FROM big ORDER BY k", None).await {
            Err(e) => ctx.violation("canary/query", format!("a well-behaved client got {e}")),
            Ok(b) => { let k = b.iter().map(|b| b.num_rows() as i64).sum::<i64>(); ctx.check(k == big, "canary/rows", || format!("{k} rows instead of {big}")); }
        }
        seq += 1;
        let more: Vec<(i64, String)> = (0..r.gen_range(1..20)).map(|i| (rows + i, format!("{seq}"))).collect();
        let (cmd, b) = sync_parts(&path, &path, Some(seq), &more);
        rows += more.len() as i64;
        match put_raw(&mut c, encode(cmd.as_any().encode_to_vec(), vec![b]).await).await {
            Err(e) => ctx.violation("canary/put", format!("a well-behaved client's message {seq} got {e}")),
            Ok(a) => { ctx.check(a.len() == 1 && a[0].accepted && a[0].memory_sequence_number.max(a[0].durable_sequence_number) == Some(seq), "canary/put", || format!("message {seq}: {a:?}")); }
        }
        ctx.count("canary_rounds", 1);
    }
    // everything reaches the table in the end
    let mut stored = None;
    for _ in 0..400 {
        let probe = DataSyncCommand { path: path.clone(), origin: path.clone(), ..Default::default() };
        let d = encode(probe.as_any().encode_to_vec(), vec![RecordBatch::new_empty(Arc::new(Schema::empty()))]).await;
        match put_raw(&mut c, d).await {
            Ok(a) => { stored = a.first().and_then(|a| a.durable_sequence_number); if stored == Some(seq) { break } }
            Err(e) => { ctx.violation("canary/probe", format!("a probe got {e}")); return }
        }
        tokio::time::sleep(Duration::from_millis(100)).await;
    }
    if seq > 0 && !ctx.check(stored == Some(seq), "canary/never-stored", || format!("{seq} messages were accepted but the durable number is {stored:?} 40 s later")) { return }
    let got = match inline(&mut c, "SELECT count(*), count(distinct k) FROM inl.t", Some(listing(&path))).await { Err(e) => Err(e), Ok(i) => redeem(&mut c, ticket(&i)).await.map(|b| sf::rows(&b.1)) };
    if seq > 0 { ctx.check(matches!(&got, Ok(g) if g == &vec![vec![rows.to_string(), rows.to_string()]]), "canary/table", || format!("{rows} rows were sent, the table has {got:?}")); }
}

pub fn c63(ctx: &Ctx) {
    ctx.rule("one evaluation = one request over the network (query and ticket, statement, hostile message) whose answer was judged; distinct by kind of request");
    ctx.assume("the Flight library (arrow-flight) panics on uploads without any message or descriptor, and on data whose header lies about its extent, before Seafowl sees them; the request's own stream then fails, and only that is required");
    // errors travel in headers, where backtraces don't fit
    std::env::set_var("RUST_BACKTRACE", "0");
    let rt = super::rt(6);
    rt.block_on(async {
        let mut r = ctx.rng("flight");
        let rounds = ctx.n(4, 80);
        let big = 20_000i64;
        for round in 0..rounds {
            if ctx.out_of_time() { break }
            let extra = "[misc.sync_conf]\nmax_in_memory_bytes = 20000\nmax_replication_lag_s = 1\nflush_task_interval_s = 1\nwrite_lock_timeout_s = 30";
            let sf = if round % 2 == 0 { Sf::disk(extra).await } else { Sf::memory(extra).await };
            let srv = Server::start(sf).await;
            tables(&srv, big).await;
            for s in ["public", "s0", "s1", "s2"] {
                if s != "public" { srv.sf.sql(&format!("CREATE SCHEMA {s}")).await.unwrap(); }
                srv.sf.sql(&format!("CREATE TABLE {s}.who AS SELECT '{s}' AS name")).await.unwrap();
            }
            let all = srv.sf.ctx.metastore.schemas.list("default").await.unwrap();
            let inl: Vec<(String, String)> = all.schemas.iter().flat_map(|s| s.tables.iter().filter(|t| t.name == "who").map(|t| (t.path.clone(), s.name.clone()))).collect();
            assert_eq!(inl.len(), 4);
            // what queries return
            let mut c = srv.client().await;
            for n in 0..ctx.n(40, 60) {
                if ctx.out_of_time() { break }
                if n % 2 == 0 {
                    let Generated { sql, kinds, nrow, .. } = literal_query(&mut r);
                    for k in kinds { ctx.seen("types-sent", k); }
                    compare(ctx, &srv, &mut c, "literals", &sql, true).await;
                    ctx.eval(&format!("literals/{}", nrow.min(2)), true);
                } else {
                    let (sql, ordered) = fixed(&mut r, big);
                    compare(ctx, &srv, &mut c, "query", &sql, ordered).await;
                    ctx.eval(&format!("query/{}", sql.chars().filter(|c| !c.is_ascii_digit()).take(30).collect::<String>()), true);
                }
            }
            sql_info(ctx, &mut c, &mut r).await;
            for n in 0..ctx.n(2, 4) { writes(ctx, &srv, &mut c, &mut r, n as usize).await }
            // many at once
            let sh = Shared { stop: AtomicBool::new(false), big, handed: Default::default(), inl };
            let chan = srv.channel().await;
            let mut tasks = vec![];
            for id in 0..8 {
                let c = if id < 3 { client(chan.clone()) } else { srv.client().await };
                tasks.push(worker(ctx, &srv, &sh, c, id, r.gen(), ctx.n(20, 60) as usize));
            }
            futures::future::join_all(tasks).await;
            // abuse
            let stop = AtomicBool::new(false);
            let (s1, s2) = (r.gen::<u64>(), r.gen::<u64>());
            let work = async {
                for n in 0..ctx.n(120, 400) { if ctx.out_of_time() { break } hostile(ctx, &srv, &mut r, n as usize).await }
                stop.store(true, Ordering::SeqCst);
            };
            futures::join!(work, canary(ctx, &srv, big, &stop, s1), canary(ctx, &srv, big, &stop, s2));
        }
    });
}
