use harness::core::{install_hook, replay, run_guided, run_prop};
use harness::props;

fn main() {
  let args: Vec<String> = std::env::args().collect();
  install_hook();
  let props = props::all();
  let code = match args.get(1).map(|s| s.as_str()) {
    Some("list") => { for p in props.iter() { println!("{}", p.id); } 0 }
    Some("replay") => replay(&props, &args[2]),
    Some(id) => {
      let guided = id == "guided";
      let args = &args[guided as usize..];
      let id = args.get(1).map(|s| s.as_str()).unwrap_or("");
      let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
      let thorough = match args.get(2).map(|s| s.as_str()) {
        Some("thorough") => true,
        Some("quick") => false,
        _ => std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false)
      };
      // a hang is an error of the run, never a violation
      std::thread::spawn(move || {
        std::thread::sleep(std::time::Duration::from_secs(if guided { 240 } else { 780 }));
        println!("CHECK-ERROR watchdog: the run did not finish in time");
        std::process::exit(4);
      });
      let scale: f64 = std::env::var("CASE_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
      match props.iter().find(|p| p.id == id) {
        Some(p) if guided => run_guided(p, seed, thorough, scale),
        Some(p) => run_prop(p, seed, thorough, scale),
        None => { eprintln!("unknown property {id}"); 2 }
      }
    }
    None => { eprintln!("usage: check <property> [quick|thorough] | replay <file> | list"); 2 }
  };
  std::process::exit(code);
}
