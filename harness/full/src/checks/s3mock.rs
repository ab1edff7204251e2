//! A small S3 on top of the raw server: objects by "bucket/key", and who asked for what
use super::mock::{Answer, Handler, Req};
use sha2::{Digest, Sha256};
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

pub type Objects = Arc<Mutex<BTreeMap<String, Vec<u8>>>>;

pub fn decode(s: &str) -> String { percent_encoding::percent_decode_str(s).decode_utf8_lossy().into_owned() }
fn etag(b: &[u8]) -> String { format!("\"{}\"", &hex::encode(Sha256::digest(b))[..32]) }
fn xml(s: &str) -> String { s.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;") }

pub fn handler(objects: Objects) -> Handler {
    let parts: Mutex<BTreeMap<String, BTreeMap<u32, Vec<u8>>>> = Default::default();
    Arc::new(move |q: &Req| {
        let (path, query) = q.target.split_once('?').unwrap_or((&q.target, ""));
        let args: BTreeMap<String, String> = query.split('&').filter(|s| !s.is_empty()).map(|p| { let (k, v) = p.split_once('=').unwrap_or((p, "")); (decode(k), decode(&v.replace('+', " "))) }).collect();
        let name = decode(path.trim_start_matches('/'));
        let mut o = objects.lock().unwrap();
        let missing = |head: bool| { let mut a = Answer::new(404, b"<Error><Code>NoSuchKey</Code><Message>no</Message></Error>"); a.head = head; a.bytes() };
        match q.method.as_str() {
            "GET" if args.contains_key("list-type") => {
                let (prefix, delim) = (args.get("prefix").cloned().unwrap_or_default(), args.contains_key("delimiter"));
                let after = args.get("start-after").cloned().unwrap_or_default();
                let mut out = String::from("<?xml version=\"1.0\" encoding=\"UTF-8\"?><ListBucketResult><IsTruncated>false</IsTruncated>");
                let mut common = std::collections::BTreeSet::new();
                for (k, v) in o.iter() {
                    let Some(key) = k.strip_prefix(&format!("{name}/")) else { continue };
                    if !key.starts_with(&prefix) || key <= after.as_str() { continue }
                    if delim { if let Some(i) = key[prefix.len()..].find('/') { common.insert(key[..prefix.len() + i + 1].to_string()); continue } }
                    out += &format!("<Contents><Key>{}</Key><LastModified>2015-10-21T07:28:00.000Z</LastModified><ETag>{}</ETag><Size>{}</Size></Contents>", xml(key), etag(v), v.len());
                }
                for c in common { out += &format!("<CommonPrefixes><Prefix>{}</Prefix></CommonPrefixes>", xml(&c)) }
                Answer::new(200, (out + "</ListBucketResult>").as_bytes()).bytes()
            }
            "GET" | "HEAD" => {
                let head = q.method == "HEAD";
                let Some(v) = o.get(&name) else { return missing(head) };
                let mut a = match q.h("range").and_then(|r| super::httpstore::range(r, v.len())) {
                    Some(r) => Answer::new(206, &v[r.clone()]).with("Content-Range", format!("bytes {}-{}/{}", r.start, r.end - 1, v.len())),
                    None => Answer::new(200, v),
                };
                a.head = head;
                a.with("ETag", etag(v)).with("Last-Modified", "Wed, 21 Oct 2015 07:28:00 GMT").bytes()
            }
            "PUT" if args.contains_key("partNumber") => {
                parts.lock().unwrap().entry(args["uploadId"].clone()).or_default().insert(args["partNumber"].parse().unwrap(), q.body.clone());
                Answer::new(200, b"").with("ETag", etag(&q.body)).bytes()
            }
            "PUT" => {
                if q.h("if-none-match") == Some("*") && o.contains_key(&name) { return Answer::new(412, b"").bytes() }
                let v = match q.h("x-amz-copy-source") {
                    Some(s) => match o.get(&decode(s.trim_start_matches('/'))) { Some(v) => v.clone(), None => return missing(false) },
                    None => q.body.clone(),
                };
                let t = etag(&v);
                let copied = q.h("x-amz-copy-source").is_some();
                o.insert(name, v);
                Answer::new(200, if copied { b"<CopyObjectResult></CopyObjectResult>" as &[u8] } else { b"" }).with("ETag", t).bytes()
            }
            "POST" if args.contains_key("uploads") => {
                let id = format!("u{:x}", sfv::rand::random::<u64>());
                Answer::new(200, format!("<InitiateMultipartUploadResult><UploadId>{id}</UploadId></InitiateMultipartUploadResult>").as_bytes()).bytes()
            }
            "POST" if args.contains_key("uploadId") => {
                let v: Vec<u8> = parts.lock().unwrap().remove(&args["uploadId"]).unwrap_or_default().into_values().flatten().collect();
                let t = etag(&v);
                o.insert(name, v);
                Answer::new(200, format!("<CompleteMultipartUploadResult><ETag>{t}</ETag></CompleteMultipartUploadResult>").as_bytes()).bytes()
            }
            "POST" if args.contains_key("delete") => {
                let b = String::from_utf8_lossy(&q.body).into_owned();
                let mut out = String::from("<DeleteResult>");
                for k in b.split("<Key>").skip(1).filter_map(|s| s.split_once("</Key>")).map(|x| x.0.replace("&amp;", "&").replace("&lt;", "<").replace("&gt;", ">")) {
                    o.remove(&format!("{}/{k}", name.trim_end_matches('/')));
                    out += &format!("<Deleted><Key>{}</Key></Deleted>", xml(&k));
                }
                Answer::new(200, (out + "</DeleteResult>").as_bytes()).bytes()
            }
            "DELETE" => { o.remove(&name); Answer::new(204, b"").bytes() }
            _ => Answer::new(400, b"").bytes(),
        }
    })
}

fn hmac(key: &[u8], msg: &[u8]) -> Vec<u8> {
    let mut k = if key.len() > 64 { Sha256::digest(key).to_vec() } else { key.to_vec() };
    k.resize(64, 0);
    let inner = Sha256::new().chain_update(k.iter().map(|b| b ^ 0x36).collect::<Vec<_>>()).chain_update(msg).finalize();
    Sha256::new().chain_update(k.iter().map(|b| b ^ 0x5c).collect::<Vec<_>>()).chain_update(inner).finalize().to_vec()
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Signed { pub key: String, pub region: String, pub token: Option<String> }

/// who signed a request, and where; None when nobody did
pub fn signer(q: &Req) -> Option<Signed> {
    let a = q.h("authorization")?;
    let cred = a.split("Credential=").nth(1)?.split(',').next()?;
    let mut p = cred.rsplitn(5, '/');
    let (_, _, region, _, key) = (p.next()?, p.next()?, p.next()?, p.next()?, p.next()?);
    Some(Signed { key: key.into(), region: region.into(), token: q.h("x-amz-security-token").map(String::from) })
}

/// does this secret give this request's signature
pub fn signed_with(q: &Req, secret: &str) -> bool {
    let f = || -> Option<bool> {
        let a = q.h("authorization")?;
        let part = |n: &str| a.split(n).nth(1).and_then(|s| s.split(',').next()).map(|s| s.trim().to_string());
        let (cred, names, sig) = (part("Credential=")?, part("SignedHeaders=")?, part("Signature=")?);
        let mut p: Vec<&str> = cred.rsplitn(5, '/').collect();
        p.reverse();
        let (date, region, service) = (p[1], p[2], p[3]);
        let (path, query) = q.target.split_once('?').unwrap_or((&q.target, ""));
        let mut args: Vec<String> = query.split('&').filter(|s| !s.is_empty()).map(|s| if s.contains('=') { s.replace('+', "%20") } else { format!("{s}=") }).collect();
        args.sort();
        let headers: String = names.split(';').map(|n| format!("{n}:{}\n", q.h(n).unwrap_or(""))).collect();
        let canon = format!("{}\n{path}\n{}\n{headers}\n{names}\n{}", q.method, args.join("&"), q.h("x-amz-content-sha256")?);
        let scope = format!("{date}/{region}/{service}/aws4_request");
        let text = format!("AWS4-HMAC-SHA256\n{}\n{scope}\n{}", q.h("x-amz-date")?, hex::encode(Sha256::digest(canon.as_bytes())));
        let mut k = hmac(format!("AWS4{secret}").as_bytes(), date.as_bytes());
        for x in [region, service, "aws4_request"] { k = hmac(&k, x.as_bytes()) }
        Some(hex::encode(hmac(&k, text.as_bytes())) == sig)
    };
    f().unwrap_or(false)
}
