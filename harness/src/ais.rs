//! C10-C20, C22, C28: decoding of AIS payloads against the ITU-R M.1371 layouts.
use crate::engine::*;
use crate::msg::*;
use nmea_parser::ais::*;
use nmea_parser::*;

fn lon(b: &Bits, off: usize) -> Option<f64> {
    let v = geti(b, off, 28);
    if v == 181 * 600_000 {
        None
    } else {
        Some(v as f64 / 600_000.0)
    }
}
fn lat(b: &Bits, off: usize) -> Option<f64> {
    let v = geti(b, off, 27);
    if v == 91 * 600_000 {
        None
    } else {
        Some(v as f64 / 600_000.0)
    }
}
fn unless(b: &Bits, off: usize, w: usize, na: u64, scale: f64) -> Option<f64> {
    let v = get(b, off, w);
    if v == na {
        None
    } else {
        Some(v as f64 / scale)
    }
}
fn bit(b: &Bits, off: usize) -> bool {
    get(b, off, 1) == 1
}
pub fn nav_status(v: u64) -> NavigationStatus {
    use NavigationStatus::*;
    [
        UnderWayUsingEngine, AtAnchor, NotUnderCommand, RestrictedManoeuverability, ConstrainedByDraught, Moored, Aground, EngagedInFishing,
        UnderWaySailing, Reserved9, Reserved10, Reserved11, Reserved12, Reserved13, AisSartIsActive, NotDefined,
    ][v as usize]
}
pub fn epfd(v: u64) -> PositionFixType {
    use PositionFixType::*;
    match v {
        1 => GPS,
        2 => GLONASS,
        3 => GPSGLONASS,
        4 => LoranC,
        5 => Chayka,
        6 => IntegratedNavigationSystem,
        7 => Surveyed,
        8 => Galileo,
        _ => Undefined,
    }
}
fn opt_epfd(v: u64) -> Option<PositionFixType> {
    if v == 0 {
        None
    } else {
        Some(epfd(v))
    }
}
pub fn meta(sec: u64) -> Option<PositioningSystemMeta> {
    use PositioningSystemMeta::*;
    match sec {
        60 => None,
        61 => Some(ManualInputMode),
        62 => Some(DeadReckoningMode),
        63 => Some(Inoperative),
        _ => Some(Operative),
    }
}
pub fn ship_type(v: u64) -> ShipType {
    use ShipType::*;
    match v / 10 {
        1 => Reserved1,
        2 => WingInGround,
        3 => [Fishing, Towing, TowingLong, DredgingOrUnderwaterOps, DivingOps, MilitaryOps, Sailing, PleasureCraft, Reserved38, Reserved39][(v % 10) as usize],
        4 => HighSpeedCraft,
        5 => [Pilot, SearchAndRescue, Tug, PortTender, AntiPollutionEquipment, LawEnforcement, SpareLocal56, SpareLocal57, MedicalTransport, Noncombatant][(v % 10) as usize],
        6 => Passenger,
        7 => Cargo,
        8 => Tanker,
        9 => Other,
        _ => NotAvailable,
    }
}
pub fn cargo_type(v: u64) -> CargoType {
    use CargoType::*;
    if [1, 2, 4, 6, 7, 8, 9].contains(&(v / 10)) {
        [Undefined, HazardousCategoryA, HazardousCategoryB, HazardousCategoryC, HazardousCategoryD, Reserved5, Reserved6, Reserved7, Reserved8, Reserved9][(v % 10) as usize]
    } else {
        Undefined
    }
}
pub fn aid_type(v: u64) -> NavAidType {
    use NavAidType::*;
    [
        NotSpecified, ReferencePoint, Racon, FixedStructure, Reserved4, LightWithoutSectors, LightWithSectors, LeadingLightFront, LeadingLightRear,
        BeaconCardinalNorth, BeaconCardinalEast, BeaconCardinalSouth, BeaconCardinalWest, BeaconLateralPort, BeaconLateralStarboard,
        BeaconLateralPreferredChannelPort, BeaconLateralPreferredChannelStarboard, BeaconIsolatedDanger, BeaconSafeWater, BeaconSpecialMark,
        CardinalMarkNorth, CardinalMarkEast, CardinalMarkSouth, CardinalMarkWest, PortHandMark, StarboardHandMark, PreferredChannelPort,
        PreferredChannelStarboard, IsolatedDanger, SafeWater, SpecialMark, LightVessel,
    ][v as usize]
}

// ---- oracles ------------------------------------------------------------------------------------
fn cmp_vdd(d: &mut Diffs, g: &VesselDynamicData, e: &VesselDynamicData) {
    d.e("own_vessel", &g.own_vessel, &e.own_vessel);
    d.e("station", &g.station, &e.station);
    d.e("ais_type", &g.ais_type, &e.ais_type);
    d.e("mmsi", &g.mmsi, &e.mmsi);
    d.e("nav_status", &g.nav_status, &e.nav_status);
    d.f("rot", g.rot, e.rot);
    d.e("rot_direction", &g.rot_direction, &e.rot_direction);
    d.f("sog_knots", g.sog_knots, e.sog_knots);
    d.e("high_position_accuracy", &g.high_position_accuracy, &e.high_position_accuracy);
    d.f("latitude", g.latitude, e.latitude);
    d.f("longitude", g.longitude, e.longitude);
    d.f("cog", g.cog, e.cog);
    d.f("heading_true", g.heading_true, e.heading_true);
    d.e("timestamp_seconds", &g.timestamp_seconds, &e.timestamp_seconds);
    d.e("current_gnss_position", &g.current_gnss_position, &e.current_gnss_position);
    d.e("special_manoeuvre", &g.special_manoeuvre, &e.special_manoeuvre);
    d.e("raim_flag", &g.raim_flag, &e.raim_flag);
    d.e("class_b_display", &g.class_b_display, &e.class_b_display);
    d.e("class_b_dsc", &g.class_b_dsc, &e.class_b_dsc);
    d.e("class_b_band_flag", &g.class_b_band_flag, &e.class_b_band_flag);
    d.e("class_b_msg22_flag", &g.class_b_msg22_flag, &e.class_b_msg22_flag);
    d.e("class_b_mode_flag", &g.class_b_mode_flag, &e.class_b_mode_flag);
    d.e("radio_status", &g.radio_status, &e.radio_status);
}
pub fn check_vdd123(b: &Bits, h: &Head, g: &VesselDynamicData) -> R {
    let rot = geti(b, 42, 8);
    let mut e = VesselDynamicData::default();
    e.own_vessel = h.own;
    e.station = h.station();
    e.ais_type = AisClass::ClassA;
    e.mmsi = get(b, 8, 30) as u32;
    e.nav_status = nav_status(get(b, 38, 4));
    e.rot = if rot == -128 || rot.abs() == 127 {
        None
    } else {
        let a = rot.abs() as f64 / 4.733;
        Some(if rot < 0 { -a * a } else { a * a })
    };
    e.rot_direction = if rot == -128 {
        None
    } else if rot <= -2 {
        Some(-1)
    } else if rot >= 2 {
        Some(1)
    } else {
        Some(0)
    };
    e.sog_knots = unless(b, 50, 10, 1023, 10.0);
    e.high_position_accuracy = bit(b, 60);
    e.longitude = lon(b, 61);
    e.latitude = lat(b, 89);
    e.cog = unless(b, 116, 12, 3600, 10.0);
    e.heading_true = unless(b, 128, 9, 511, 1.0);
    e.timestamp_seconds = get(b, 137, 6) as u8;
    e.positioning_system_meta = meta(get(b, 137, 6));
    e.special_manoeuvre = match get(b, 143, 2) {
        1 => Some(false),
        2 => Some(true),
        _ => None,
    };
    e.raim_flag = bit(b, 148);
    e.radio_status = Some(get(b, 149, 19) as u32);
    let mut d = Diffs::default();
    cmp_vdd(&mut d, g, &e);
    d.e("positioning_system_meta", &g.positioning_system_meta, &e.positioning_system_meta);
    d.e("class_b_unit_flag", &g.class_b_unit_flag, &None);
    d.e("class_b_css_flag", &g.class_b_css_flag, &None);
    d.done("type 1-3")
}
pub fn check_vdd18(b: &Bits, h: &Head, g: &VesselDynamicData) -> R {
    let mut e = VesselDynamicData::default();
    e.own_vessel = h.own;
    e.station = h.station();
    e.ais_type = AisClass::ClassB;
    e.mmsi = get(b, 8, 30) as u32;
    e.nav_status = NavigationStatus::NotDefined;
    e.sog_knots = unless(b, 46, 10, 1023, 10.0);
    e.high_position_accuracy = bit(b, 56);
    e.longitude = lon(b, 57);
    e.latitude = lat(b, 85);
    e.cog = unless(b, 112, 12, 3600, 10.0);
    e.heading_true = unless(b, 124, 9, 511, 1.0);
    e.timestamp_seconds = get(b, 133, 6) as u8;
    e.class_b_display = Some(bit(b, 142));
    e.class_b_dsc = Some(bit(b, 143));
    e.class_b_band_flag = Some(bit(b, 144));
    e.class_b_msg22_flag = Some(bit(b, 145));
    e.class_b_mode_flag = Some(bit(b, 146));
    e.raim_flag = bit(b, 147);
    e.radio_status = Some(get(b, 149, 19) as u32);
    let mut d = Diffs::default();
    cmp_vdd(&mut d, g, &e);
    // not promised by the property: either absent or right
    if g.positioning_system_meta.is_some() {
        d.e("positioning_system_meta", &g.positioning_system_meta, &meta(get(b, 133, 6)));
    }
    if g.class_b_unit_flag.is_some() {
        d.e("class_b_unit_flag", &g.class_b_unit_flag, &Some(bit(b, 141)));
    }
    if g.class_b_css_flag.is_some() {
        d.e("class_b_css_flag", &g.class_b_css_flag, &Some(bit(b, 148)));
    }
    d.done("type 18")
}
/// Type 27. The existing unit tests pin positions of some fields that differ from M.1371; those
/// exact deviations are the known finding C18-type27-bits.
pub fn check_vdd27(b: &Bits, h: &Head, g: &VesselDynamicData, ctx: &mut Ctx) -> R {
    let mut e = VesselDynamicData::default();
    e.own_vessel = h.own;
    e.station = h.station();
    e.ais_type = AisClass::ClassA;
    e.mmsi = get(b, 8, 30) as u32;
    e.high_position_accuracy = bit(b, 38);
    e.raim_flag = bit(b, 39);
    e.nav_status = nav_status(get(b, 40, 4));
    let rlon = geti(b, 44, 18);
    let rlat = geti(b, 62, 17);
    e.longitude = if rlon == 181 * 600 { None } else { Some(rlon as f64 / 600.0) };
    e.latitude = if rlat == 91 * 600 { None } else { Some(rlat as f64 / 600.0) };
    e.sog_knots = unless(b, 79, 6, 63, 1.0);
    e.cog = unless(b, 85, 9, 511, 1.0);
    e.current_gnss_position = Some(!bit(b, 94));
    // the pinned deviations
    let w_lat = Some(rlon as f64 / 600.0);
    let w_lon = Some(rlat as f64 / 600.0);
    let w_sog = unless(b, 62, 6, 63, 1.0);
    let w_cog = unless(b, 62, 17, 91000, 10.0);
    let w_gnss = Some(!bit(b, 62));
    let mut known = vec![];
    let mut pick = |name: &'static str, got: Option<f64>, want: &mut Option<f64>, pinned: Option<f64>| {
        if !oclose(got, *want) && oclose(got, pinned) {
            known.push(format!("{}: got {:?}, transmitted {:?}", name, got, want));
            *want = got;
        }
    };
    pick("latitude", g.latitude, &mut e.latitude, w_lat);
    pick("longitude", g.longitude, &mut e.longitude, w_lon);
    pick("sog_knots", g.sog_knots, &mut e.sog_knots, w_sog);
    pick("cog", g.cog, &mut e.cog, w_cog);
    if g.current_gnss_position != e.current_gnss_position && g.current_gnss_position == w_gnss {
        known.push(format!("current_gnss_position: got {:?}, transmitted {:?}", g.current_gnss_position, e.current_gnss_position));
        e.current_gnss_position = w_gnss;
    }
    let mut d = Diffs::default();
    cmp_vdd(&mut d, g, &e);
    d.e("positioning_system_meta", &g.positioning_system_meta, &None);
    d.e("class_b_unit_flag", &g.class_b_unit_flag, &None);
    d.e("class_b_css_flag", &g.class_b_css_flag, &None);
    d.done("type 27")?;
    if !known.is_empty() {
        ctx.known("C18-type27-bits", || known.join("; "))?;
    }
    Ok(())
}
pub fn check_t4(b: &Bits, h: &Head, g: &BaseStationReport) -> R {
    let mut d = Diffs::default();
    d.e("own_vessel", &g.own_vessel, &h.own);
    d.e("station", &g.station, &h.station());
    d.e("mmsi", &g.mmsi, &(get(b, 8, 30) as u32));
    let c = Civil { y: get(b, 38, 14) as i64, mo: get(b, 52, 4) as i64, d: get(b, 56, 5) as i64, h: get(b, 61, 5) as i64, mi: get(b, 66, 6) as i64, s: get(b, 72, 6) as i64 };
    let got = g.timestamp.map(|t| (t.timestamp(), t.timestamp_subsec_nanos()));
    if c.valid() {
        // year 0 is the not-available code, years above 9999 are outside the field's range
        if c.y >= 1 && c.y <= 9999 {
            d.e("timestamp", &got, &Some((c.ts(), 0)));
        } else if let Some(t) = got {
            d.e("timestamp", &t, &(c.ts(), 0));
        }
    } else {
        d.e("timestamp", &got, &None);
    }
    d.e("high_position_accuracy", &g.high_position_accuracy, &bit(b, 78));
    d.f("longitude", g.longitude, lon(b, 79));
    d.f("latitude", g.latitude, lat(b, 107));
    d.e("position_fix_type", &g.position_fix_type, &opt_epfd(get(b, 134, 4)));
    d.e("raim_flag", &g.raim_flag, &bit(b, 148));
    d.e("radio_status", &g.radio_status, &(get(b, 149, 19) as u32));
    d.done("type 4")
}
fn cmp_vsd(d: &mut Diffs, g: &VesselStaticData, e: &VesselStaticData) {
    d.e("own_vessel", &g.own_vessel, &e.own_vessel);
    d.e("ais_type", &g.ais_type, &e.ais_type);
    d.e("mmsi", &g.mmsi, &e.mmsi);
    d.e("ais_version_indicator", &g.ais_version_indicator, &e.ais_version_indicator);
    d.e("imo_number", &g.imo_number, &e.imo_number);
    d.e("call_sign", &g.call_sign, &e.call_sign);
    d.e("name", &g.name, &e.name);
    d.e("ship_type", &g.ship_type, &e.ship_type);
    d.e("cargo_type", &g.cargo_type, &e.cargo_type);
    d.e("equipment_vendor_id", &g.equipment_vendor_id.clone().filter(|s| !s.is_empty()), &e.equipment_vendor_id);
    d.e("equipment_model", &g.equipment_model, &e.equipment_model);
    d.e("equipment_serial_number", &g.equipment_serial_number, &e.equipment_serial_number);
    d.e("dimension_to_bow", &g.dimension_to_bow, &e.dimension_to_bow);
    d.e("dimension_to_stern", &g.dimension_to_stern, &e.dimension_to_stern);
    d.e("dimension_to_port", &g.dimension_to_port, &e.dimension_to_port);
    d.e("dimension_to_starboard", &g.dimension_to_starboard, &e.dimension_to_starboard);
    d.e("position_fix_type", &g.position_fix_type, &e.position_fix_type);
    d.e("draught10", &g.draught10, &e.draught10);
    d.e("destination", &g.destination, &e.destination);
    d.e("mothership_mmsi", &g.mothership_mmsi, &e.mothership_mmsi);
}
pub fn check_t5(b: &Bits, h: &Head, g: &VesselStaticData, now: Civil, ctx: &mut Ctx) -> R {
    let mut e = VesselStaticData::default();
    e.own_vessel = h.own;
    e.ais_type = AisClass::ClassA;
    e.mmsi = get(b, 8, 30) as u32;
    e.ais_version_indicator = get(b, 38, 2) as u8;
    let imo = get(b, 40, 30) as u32;
    e.imo_number = if imo == 0 { None } else { Some(imo) };
    e.call_sign = opt_text(b, 70, 7);
    e.name = opt_text(b, 112, 20);
    e.ship_type = ship_type(get(b, 232, 8));
    e.cargo_type = cargo_type(get(b, 232, 8));
    e.dimension_to_bow = Some(get(b, 240, 9) as u16);
    e.dimension_to_stern = Some(get(b, 249, 9) as u16);
    e.dimension_to_port = Some(get(b, 258, 6) as u16);
    e.dimension_to_starboard = Some(get(b, 264, 6) as u16);
    e.position_fix_type = opt_epfd(get(b, 270, 4));
    let dr = get(b, 294, 8) as u8;
    e.draught10 = if dr == 0 { None } else { Some(dr) };
    e.destination = opt_text(b, 302, 20);
    let mut d = Diffs::default();
    cmp_vsd(&mut d, g, &e);
    d.done("type 5")?;
    check_eta(b, g.eta.map(|t| (t.timestamp(), t.timestamp_subsec_nanos())), now, ctx)
}
fn check_eta(b: &Bits, got: Option<(i64, u32)>, now: Civil, ctx: &mut Ctx) -> R {
    let (mo, da, ho, mi) = (get(b, 274, 4) as i64, get(b, 278, 5) as i64, get(b, 283, 5) as i64, get(b, 288, 6) as i64);
    let what = format!("ETA month {} day {} hour {} minute {} at {}", mo, da, ho, mi, now);
    let impossible = mo > 12 || ho > 24 || (mi > 60 && ho != 24) || (mo != 0 && da > if mo == 2 { 29 } else { dim(2000, mo) });
    if (mo, da, ho, mi) == (0, 0, 24, 60) {
        ctx.class("eta unavailable");
        ensure!(got.is_none(), "type 5 {}: got {:?}, transmitted none", what, got);
        return Ok(());
    }
    if impossible {
        ctx.class("eta impossible");
        ensure!(got.is_none(), "type 5 {}: got {:?} for an impossible date or time", what, got);
        return Ok(());
    }
    if mo == 0 || da == 0 || ho == 24 || mi == 60 {
        // partly unavailable: what is given is kept, what is not is open
        ctx.class("eta partial");
        let Some((t, _)) = got else {
            // without a month or day there may be no such date
            let open = mo == 0 || da == 0 || (mo == 2 && da == 29);
            ensure!(open, "type 5 {}: got none although the date is given", what);
            return Ok(());
        };
        let (y, m2, d2) = civil_of(t.div_euclid(86400));
        let (h2, mi2) = (t.rem_euclid(86400) / 3600, t.rem_euclid(3600) / 60);
        let kept = (mo == 0 || m2 == mo) && (da == 0 || d2 == da) && (ho == 24 || (h2 == ho && (mi == 60 || mi2 == mi)));
        ensure!(kept, "type 5 {}: got {}-{:02}-{:02} {:02}:{:02}, which is not what is given", what, y, m2, d2, h2, mi2);
        // the latest moment of what is given
        let end = (ho != 24 || h2 == 23) && ((ho != 24 && mi != 60) || mi2 == 59);
        ensure!(end, "type 5 {}: got {:02}:{:02}, not the end of the day or hour", what, h2, mi2);
        ensure!(t >= now.ts() - now.s, "type 5 {}: got {}, which is in the past", what, t);
        if mo != 0 && da != 0 {
            let last = |y: i64| Civil { y, mo, d: da, h: if ho == 24 { 23 } else { ho }, mi: 59, s: 59 };
            let this_ok = last(now.y).valid() && last(now.y).ts() >= now.ts();
            let first = Civil { y: now.y, mo, d: da, h: if ho == 24 { 0 } else { ho }, mi: if mi == 60 || ho == 24 { 0 } else { mi }, s: 0 };
            let next_ok = !(first.valid() && first.ts() > now.ts());
            ensure!((y == now.y && this_ok) || (y == now.y + 1 && next_ok), "type 5 {}: got year {}", what, y);
        }
        return Ok(());
    }
    let at = |y: i64| Civil { y, mo, d: da, h: ho, mi, s: 0 };
    let this = at(now.y);
    let next = at(now.y + 1);
    let now_min = now.ts() - now.s;
    let mut accept: Vec<Option<i64>> = vec![];
    let nexto = if next.valid() { Some(next.ts()) } else { None };
    if this.valid() && this.ts() >= now_min {
        accept.push(Some(this.ts()));
        if this.ts() == now_min {
            // within the current minute: past or not is a matter of the second
            accept.push(nexto);
            ctx.class("eta this minute");
        } else {
            ctx.class("eta this year");
        }
    } else {
        accept.push(nexto);
        ctx.class(if nexto.is_some() { "eta next year" } else { "eta Feb 29 in no year" });
    }
    match got {
        None => ensure!(accept.contains(&None), "type 5 {}: got none, expected {:?}", what, accept),
        Some((t, ns)) => {
            let sec = t.rem_euclid(60);
            ensure!(accept.contains(&Some(t - sec)) && ns == 0, "type 5 {}: got {}+{}ns, expected {:?}", what, t, ns, accept);
            if sec != 0 {
                let pinned = (get(b, 294, 8) >> 2).min(59) as i64;
                ensure!(sec == pinned, "type 5 {}: ETA has {} seconds, the message carries whole minutes", what, sec);
                ctx.known("C13-eta-seconds", || format!("{}: decoded with {} seconds (draught field {})", what, sec, get(b, 294, 8)))?;
            }
        }
    }
    Ok(())
}
pub fn check_t6(b: &Bits, h: &Head, g: &BinaryAddressedMessage) -> R {
    let mut d = Diffs::default();
    d.e("own_vessel", &g.own_vessel, &h.own);
    d.e("station", &g.station, &h.station());
    d.e("mmsi", &g.mmsi, &(get(b, 8, 30) as u32));
    d.e("sequence_number", &g.sequence_number, &(get(b, 38, 2) as u8));
    d.e("destination_mmsi", &g.destination_mmsi, &(get(b, 40, 30) as u32));
    d.e("retransmit_flag", &g.retransmit_flag, &bit(b, 70));
    d.e("dac", &g.dac, &(get(b, 72, 10) as u16));
    d.e("fid", &g.fid, &(get(b, 82, 6) as u8));
    d.done("type 6")
}
pub fn check_t10(b: &Bits, h: &Head, g: &UtcDateInquiry) -> R {
    let mut d = Diffs::default();
    d.e("own_vessel", &g.own_vessel, &h.own);
    d.e("station", &g.station, &h.station());
    d.e("source_mmsi", &g.source_mmsi, &(get(b, 8, 30) as u32));
    d.e("destination_mmsi", &g.destination_mmsi, &(get(b, 40, 30) as u32));
    d.done("type 10")
}
pub fn check_t9(b: &Bits, h: &Head, g: &StandardSarAircraftPositionReport) -> R {
    let mut d = Diffs::default();
    let un = |off, w, na: u64| {
        let v = get(b, off, w);
        if v == na {
            None
        } else {
            Some(v as u16)
        }
    };
    d.e("own_vessel", &g.own_vessel, &h.own);
    d.e("station", &g.station, &h.station());
    d.e("mmsi", &g.mmsi, &(get(b, 8, 30) as u32));
    d.e("altitude", &g.altitude, &un(38, 12, 4095));
    d.e("sog_knots", &g.sog_knots, &un(50, 10, 1023));
    d.e("high_position_accuracy", &g.high_position_accuracy, &bit(b, 60));
    d.f("longitude", g.longitude, lon(b, 61));
    d.f("latitude", g.latitude, lat(b, 89));
    d.f("cog", g.cog, unless(b, 116, 12, 3600, 10.0));
    d.e("timestamp_seconds", &g.timestamp_seconds, &(get(b, 128, 6) as u8));
    d.e("regional", &g.regional, &(get(b, 134, 8) as u8));
    d.e("dte", &g.dte, &!bit(b, 142));
    d.e("assigned", &g.assigned, &bit(b, 146));
    d.e("raim_flag", &g.raim_flag, &bit(b, 147));
    d.e("radio_status", &g.radio_status, &(get(b, 148, 20) as u32));
    d.done("type 9")
}
pub fn aid_name(b: &Bits) -> String {
    let name = raw_text(b, 43, 20);
    // The extension has as many characters as fit into the message, at most 14.
    let ext = text(b, 272, 14);
    format!("{}{}", name, ext).trim_end_matches(' ').to_string()
}
pub fn check_t21(b: &Bits, h: &Head, g: &AidToNavigationReport) -> R {
    let mut d = Diffs::default();
    d.e("own_vessel", &g.own_vessel, &h.own);
    d.e("station", &g.station, &h.station());
    d.e("mmsi", &g.mmsi, &(get(b, 8, 30) as u32));
    d.e("aid_type", &g.aid_type, &aid_type(get(b, 38, 5)));
    d.e("name", &g.name, &aid_name(b));
    // a private field, visible in the Debug output
    let dbg = api(|| format!("{:?}", g));
    if let Some(p) = dbg.find("high_position_accuracy: ") {
        let v = dbg[p + 24..].starts_with("true");
        d.e("high_position_accuracy", &v, &bit(b, 163));
    }
    d.f("longitude", g.longitude, lon(b, 164));
    d.f("latitude", g.latitude, lat(b, 192));
    d.e("dimension_to_bow", &g.dimension_to_bow, &Some(get(b, 219, 9) as u16));
    d.e("dimension_to_stern", &g.dimension_to_stern, &Some(get(b, 228, 9) as u16));
    d.e("dimension_to_port", &g.dimension_to_port, &Some(get(b, 237, 6) as u16));
    d.e("dimension_to_starboard", &g.dimension_to_starboard, &Some(get(b, 243, 6) as u16));
    d.e("position_fix_type", &g.position_fix_type, &Some(epfd(get(b, 249, 4))));
    d.e("timestamp_seconds", &g.timestamp_seconds, &(get(b, 253, 6) as u8));
    d.e("off_position_indicator", &g.off_position_indicator, &bit(b, 259));
    d.e("regional", &g.regional, &(get(b, 260, 8) as u8));
    d.e("raim_flag", &g.raim_flag, &bit(b, 268));
    d.e("virtual_aid_flag", &g.virtual_aid_flag, &bit(b, 269));
    d.e("assigned_mode_flag", &g.assigned_mode_flag, &bit(b, 270));
    d.done("type 21")
}
pub fn check_t24(a: &Bits, b: &Bits, own: bool, g: &VesselStaticData) -> R {
    let mut e = VesselStaticData::default();
    e.own_vessel = own;
    e.ais_type = AisClass::ClassB;
    e.mmsi = get(a, 8, 30) as u32;
    e.name = opt_text(a, 40, 20);
    e.ship_type = ship_type(get(b, 40, 8));
    e.cargo_type = cargo_type(get(b, 40, 8));
    e.equipment_vendor_id = opt_text(b, 48, 3);
    e.equipment_model = Some(get(b, 66, 4) as u8);
    e.equipment_serial_number = Some(get(b, 70, 20) as u32);
    e.call_sign = opt_text(b, 90, 7);
    e.dimension_to_bow = Some(get(b, 132, 9) as u16);
    e.dimension_to_stern = Some(get(b, 141, 9) as u16);
    e.dimension_to_port = Some(get(b, 150, 6) as u16);
    e.dimension_to_starboard = Some(get(b, 156, 6) as u16);
    e.mothership_mmsi = Some(get(b, 132, 30) as u32);
    let mut d = Diffs::default();
    cmp_vsd(&mut d, g, &e);
    d.e("eta", &g.eta.is_some(), &false);
    d.done("type 24")
}
/// Checks a result of a single-message kind (everything but type 24) against its bits.
pub fn check_any(b: &Bits, ty: u64, h: &Head, now: Civil, r: &Res, ctx: &mut Ctx) -> R {
    match (ty, r) {
        (1..=3, Ok(ParsedSentence::VesselDynamicData(g))) => check_vdd123(b, h, g),
        (18, Ok(ParsedSentence::VesselDynamicData(g))) => check_vdd18(b, h, g),
        (27, Ok(ParsedSentence::VesselDynamicData(g))) => check_vdd27(b, h, g, ctx),
        (4, Ok(ParsedSentence::BaseStationReport(g))) => check_t4(b, h, g),
        (5, Ok(ParsedSentence::VesselStaticData(g))) => check_t5(b, h, g, now, ctx),
        (6, Ok(ParsedSentence::BinaryAddressedMessage(g))) => check_t6(b, h, g),
        (9, Ok(ParsedSentence::StandardSarAircraftPositionReport(g))) => check_t9(b, h, g),
        (10, Ok(ParsedSentence::UtcDateInquiry(g))) => check_t10(b, h, g),
        (21, Ok(ParsedSentence::AidToNavigationReport(g))) => check_t21(b, h, g),
        _ => Err(format!("AIS message type {} answered with {:?}", ty, r)),
    }
}
/// Parts A and B of one vessel through one parser, in either order.
pub fn pair24(ctx: &mut Ctx, ha: &Head, hb: &Head, a: &Bits, b: &Bits, b_first: bool) -> Result<VesselStaticData, String> {
    let mut p = P::new();
    let (h1, m1, h2, m2) = if b_first { (hb, b, ha, a) } else { (ha, a, hb, b) };
    let r = deliver(&mut p, ctx, h1, &armour(m1))?;
    ensure!(is_incomplete(&r), "first part of a type 24 report answered with {:?}", r);
    match deliver(&mut p, ctx, h2, &armour(m2))? {
        Ok(ParsedSentence::VesselStaticData(v)) => Ok(v),
        r => Err(format!("second part of a type 24 report answered with {:?}", r)),
    }
}

fn spread(b: &Bits, ty: u64) -> bool {
    // non-trivial: at least three fields of the layout are neither zero nor their first special value
    let mut n = 0;
    for fl in layout(ty).0 {
        if fl.text {
            n += (get(b, fl.off, 6) != 0) as u32;
        } else {
            let v = get(b, fl.off, fl.w);
            n += (v != 0 && Some(&v) != fl.special.get(0)) as u32;
        }
    }
    n >= 3.min(layout(ty).0.len() as u32)
}

// ---- C10-C18: one message type each ---------------------------------------------------------------
pub struct Decode {
    pub id: &'static str,
    pub types: &'static [u64],
}
impl Property for Decode {
    fn id(&self) -> &'static str {
        self.id
    }
    fn rule(&self) -> &'static str {
        "A case is one message of the property's AIS type(s): every bit generated (field-wise: zero, not-available and boundary codes, literals of the sources +-1, powers of two +-1, uniform; or raw bits), armoured and sent in one or two sentences with a generated header, at a generated system date; every field of the result is compared with the value at its ITU-R M.1371 bit position. Sweeps force every value of every field of up to 12 bits (14 thorough) and boundary/strided values of wider ones. Non-trivial: at least three fields of the message hold neither zero nor their not-available code."
    }
    fn plan(&self, th: bool) -> Plan {
        let heavy = self.id == "C13";
        if th {
            Plan { random: 14_000_000, guided: 4_000_000, sweep_reps: if heavy { 60 } else { 40 } }
        } else {
            Plan { random: if self.id == "C17" { 700_000 } else { 1_200_000 }, guided: 250_000, sweep_reps: 4 }
        }
    }
    fn sweeps(&self, th: bool) -> Vec<Vec<u64>> {
        let mut v = vec![];
        for (i, ty) in self.types.iter().enumerate() {
            for s in layout_sweeps(*ty, th) {
                let mut p = vec![i as u64];
                if self.types.len() == 1 {
                    p.clear(); // a choice among one is not drawn
                }
                if self.id == "C17" {
                    p.clear();
                    // which part is the swept one
                    p.push((*ty == 124) as u64);
                }
                p.extend(s);
                v.push(p);
            }
        }
        if self.id == "C13" {
            // every day of the year against every day of a few years is covered by cases with [17 = eta mode]
            for mo in 0..16u64 {
                for d in 0..32u64 {
                    for k in 0..12u64 {
                        v.push(vec![LAY5 + 1, mo, d, k]);
                    }
                }
            }
            for h in 0..32u64 {
                for m in 0..64u64 {
                    v.push(vec![LAY5 + 2, h, m]);
                }
            }
        }
        if self.id == "C12" {
            for mo in 0..16u64 {
                for d in 0..32u64 {
                    for y in 0..9u64 {
                        v.push(vec![LAY4 + 1, mo, d, y]);
                    }
                }
            }
            for h in 0..32u64 {
                for m in 0..64u64 {
                    v.push(vec![LAY4 + 2, h, m, 7]);
                }
            }
            for m in 0..64u64 {
                for s in 0..64u64 {
                    v.push(vec![LAY4 + 2, 3, m, s]);
                }
            }
        }
        v
    }
    fn regress(&self, ctx: &mut Ctx) -> R {
        regress(self.id, ctx)
    }
    fn case(&self, src: &mut Src, ctx: &mut Ctx) -> R {
        now_default();
        if self.id == "C17" {
            return case24(src, ctx);
        }
        let ty = self.types[src.usize(self.types.len())];
        let (mut b, eta, now);
        if ty == 5 {
            let (x, y) = gen5(src, ctx);
            b = x;
            eta = y;
            now = if eta.is_some() { eta.unwrap() } else { gen_clock(src, ctx) };
        } else if ty == 4 {
            b = gen4(src);
            now = gen_clock(src, ctx);
        } else {
            b = gen_msg(src, ty);
            now = gen_clock(src, ctx);
        }
        if ty == 21 {
            // name extension of 0-14 characters (spare bits to fill the last symbol)
            let n = src.usize(15);
            let base = 272;
            put(&mut b, base, 0, 0);
            if n > 0 {
                for (k, v) in gen_text(src, n).into_iter().enumerate() {
                    put(&mut b, base + 6 * k, 6, v);
                }
                ctx.class("aid name extension");
            }
        }
        let mut payload = armour(&b);
        if ty != 21 && src.chance(1, 12) {
            // symbols after the message proper belong to no field
            for _ in 0..src.range(1, 31) {
                payload.push(sym_char(src.below(64)));
            }
            ctx.class("longer than the message");
        }
        let h = gen_head(src, payload.len());
        let mut p = P::new();
        ctx.class(if h.split.is_some() { "two sentences" } else { "one sentence" });
        if spread(&b, ty) {
            ctx.nontrivial();
        }
        let r = deliver(&mut p, ctx, &h, &payload)?;
        check_any(&b, ty, &h, now, &r, ctx)
    }
    fn assumptions(&self) -> Vec<&'static str> {
        match self.id {
            "C11" => vec!["unit flag, communication state selector and positioning mode of type 18 are accepted as none or as the transmitted value"],
            "C12" => vec!["years above 9999: none or the exact timestamp are both accepted"],
            "C13" => vec!["of an ETA of which some but not all parts are unavailable only the parts that are given are compared, and it may be none without a month or day", "an ETA within the current minute may count as past or not"],
            "C17" => vec!["an empty vendor id may be none or the empty string", "dimensions and mothership MMSI are the same bits; both are reported as transmitted"],
            _ => vec![],
        }
    }
}
const LAY5: u64 = 17; // number of type 5 layout fields
const LAY4: u64 = 13;

/// Type 5 message; modes above the field selection drive the ETA systematically.
fn gen5(src: &mut Src, ctx: &mut Ctx) -> (Bits, Option<Civil>) {
    let sel = src.below(LAY5 + 4);
    let mut forced: Option<(u64, u64, Option<u64>, Option<u64>)> = None;
    let mut clock = None;
    if sel == LAY5 + 1 {
        // a date against a clock on, before and after that date
        let (mo, d, k) = (src.below(16), src.below(32), src.below(12));
        forced = Some((mo, d, None, None));
        if (1..=12).contains(&mo) {
            let y = [2019i64, 2020, 2023, 2024, 2099, 2100][(k / 2) as usize];
            let dd = (d as i64).clamp(1, dim(y, mo as i64));
            let mut c = Civil { y, mo: mo as i64, d: dd, h: 12, mi: 30, s: 0 };
            match src.below(4) {
                0 => {}
                1 => c.h = 0,
                2 => c.d = (c.d + 1).min(dim(y, c.mo)),
                _ => c.d = (c.d - 1).max(1),
            }
            if k % 2 == 1 {
                c.mi = src.below(60) as i64;
                c.s = src.below(60) as i64;
            }
            set_clock(c, 0);
            ctx.note(|| format!("system clock {}", c));
            clock = Some(c);
        }
    } else if sel == LAY5 + 2 {
        let (h, m) = (src.below(32), src.below(64));
        forced = Some((99, 99, Some(h), Some(m)));
    } else if sel == LAY5 + 3 {
        // close to the clock in everything
        let c = gen_clock(src, ctx);
        clock = Some(c);
        let t = c.ts() / 60 + src.range(0, 6) as i64 - 3 + src.pick(&[0i64, 60, -60, 1440, -1440]);
        let (y, mo, d) = civil_of(t.div_euclid(1440));
        let _ = y;
        let m = t.rem_euclid(1440);
        forced = Some((mo as u64, d as u64, Some((m / 60) as u64), Some((m % 60) as u64)));
    }
    let mut b = if forced.is_some() {
        gen_msg(src, 5)
    } else {
        // hand the field selection through
        gen_msg_sel(src, 5, sel)
    };
    if let Some((mo, d, h, m)) = forced {
        let plausible = src.below(4);
        let mo = if mo == 99 { 1 + src.below(12) } else { mo };
        let d = if d == 99 { 1 + src.below(28) } else { d };
        let h = h.unwrap_or_else(|| if plausible == 0 { 24 } else { src.below(24) });
        let m = m.unwrap_or_else(|| if plausible == 0 { 60 } else { src.below(60) });
        put(&mut b, 274, 4, mo);
        put(&mut b, 278, 5, d);
        put(&mut b, 283, 5, h);
        put(&mut b, 288, 6, m);
    } else if sel == 0 && src.bool() {
        // a valid date and time
        put(&mut b, 274, 4, 1 + src.below(12));
        put(&mut b, 278, 5, 1 + src.below(31));
        put(&mut b, 283, 5, src.below(24));
        put(&mut b, 288, 6, src.below(60));
    }
    (b, clock)
}
pub fn civil_of(days: i64) -> (i64, i64, i64) {
    let mut y = 1970 + days / 366;
    while days_from_civil(y + 1, 1, 1) <= days {
        y += 1;
    }
    while days_from_civil(y, 1, 1) > days {
        y -= 1;
    }
    let mut m = 1;
    while m < 12 && days_from_civil(y, m + 1, 1) <= days {
        m += 1;
    }
    (y, m, days - days_from_civil(y, m, 1) + 1)
}
/// gen_msg with the selection already drawn.
fn gen_msg_sel(src: &mut Src, ty: u64, sel: u64) -> Bits {
    let (lay, _) = layout(ty);
    if sel == 0 {
        return gen_msg(src, ty);
    }
    let fl = lay[sel as usize - 1];
    let forced = src.below(1 << fl.w.min(30));
    let mut b = gen_msg(src, ty);
    if !fl.text {
        put(&mut b, fl.off, fl.w, forced);
    }
    b
}
fn gen4(src: &mut Src) -> Bits {
    let sel = src.below(LAY4 + 3);
    if sel <= LAY4 {
        let mut b = gen_msg_sel(src, 4, sel);
        if src.bool() && sel == 0 {
            put(&mut b, 38, 14, src.range(1, 9999));
            put(&mut b, 52, 4, 1 + src.below(12));
            put(&mut b, 56, 5, 1 + src.below(31));
            put(&mut b, 61, 5, src.below(24));
            put(&mut b, 66, 6, src.below(60));
            put(&mut b, 72, 6, src.below(60));
        }
        return b;
    }
    if sel == LAY4 + 1 {
        let (mo, d, y) = (src.below(16), src.below(32), src.below(9));
        let mut b = gen_msg(src, 4);
        put(&mut b, 38, 14, [0u64, 1, 1900, 2000, 2019, 2020, 2100, 9996, 9999][y as usize]);
        put(&mut b, 52, 4, mo);
        put(&mut b, 56, 5, d);
        put(&mut b, 61, 5, src.below(25));
        put(&mut b, 66, 6, src.below(60));
        put(&mut b, 72, 6, src.below(60));
        return b;
    }
    let (h, m, s) = (src.below(32), src.below(64), src.below(64));
    let mut b = gen_msg(src, 4);
    put(&mut b, 38, 14, 1990 + src.below(60));
    put(&mut b, 52, 4, 1 + src.below(12));
    put(&mut b, 56, 5, 1 + src.below(28));
    put(&mut b, 61, 5, h);
    put(&mut b, 66, 6, m);
    put(&mut b, 72, 6, s);
    b
}
fn case24(src: &mut Src, ctx: &mut Ctx) -> R {
    let swept_b = src.bool();
    let (mut a, mut b);
    if swept_b {
        b = gen_msg(src, 124);
        a = gen_msg(src, 24);
    } else {
        a = gen_msg(src, 24);
        b = gen_msg(src, 124);
    }
    // one vessel
    if swept_b {
        let m = get(&b, 8, 30);
        put(&mut a, 8, 30, m);
    } else {
        let m = get(&a, 8, 30);
        put(&mut b, 8, 30, m);
    }
    // part A is 160 or 168 bits long
    if src.bool() {
        put(&mut a, 160, 8, src.below(256));
        ctx.class("part A with spare bits");
    }
    let (pa, pb) = (armour(&a), armour(&b));
    let mut ha = gen_head(src, pa.len());
    let mut hb = gen_head(src, pb.len());
    let own = src.bool();
    ha.own = own;
    hb.own = own;
    let b_first = src.bool();
    ctx.class(if b_first { "B first" } else { "A first" });
    if spread(&b, 124) {
        ctx.nontrivial();
    }
    let v = pair24(ctx, &ha, &hb, &a, &b, b_first)?;
    check_t24(&a, &b, own, &v)
}

fn bits_of(payload: &str) -> Bits {
    let mut b = vec![];
    for c in payload.bytes() {
        let v = if c < 88 { c - 48 } else { c - 56 } as u64;
        for i in 0..6 {
            b.push((v >> (5 - i)) & 1 == 1);
        }
    }
    b
}
/// The inputs of the defects repaired so far, as plain checks.
fn regress(id: &str, ctx: &mut Ctx) -> R {
    set_clock(DEFAULT_NOW, 0);
    let mut p = P::new();
    let h = Head::plain();
    let mut go = |ctx: &mut Ctx, b: &Bits, ty: u64| -> R {
        let r = deliver(&mut p, ctx, &h, &armour(b))?;
        check_any(b, ty, &h, DEFAULT_NOW, &r, ctx)
    };
    let mk = |ty: u64, set: &[(usize, usize, u64)]| {
        let mut b: Bits = vec![false; layout(ty).1];
        for (o, w, v) in set {
            put(&mut b, *o, *w, *v);
        }
        fix_type(&mut b, ty);
        b
    };
    match id {
        "C10" => {
            for v in [0u64, 1, 2, 10, 126, 127, 128, 129, 130, 246, 255] {
                go(ctx, &mk(1, &[(42, 8, v)]), 1)?;
            }
            for v in 0..4 {
                go(ctx, &mk(3, &[(143, 2, v)]), 3)?;
            }
            let s = "15RTgt0PAso;90TKcjM8h6g208CQ";
            go(ctx, &bits_of(s), 1)?;
        }
        "C11" => {
            for i in 139..149 {
                go(ctx, &mk(18, &[(i, 1, 1)]), 18)?;
            }
        }
        "C12" => {
            for (y, mo, d, ho, mi, s) in [(2020, 2, 30, 0, 0, 0), (0, 0, 0, 24, 60, 60), (2021, 2, 29, 1, 1, 1), (2020, 13, 1, 0, 0, 0), (2020, 1, 1, 24, 0, 0), (2020, 2, 29, 23, 59, 59)] {
                go(ctx, &mk(4, &[(38, 14, y), (52, 4, mo), (56, 5, d), (61, 5, ho), (66, 6, mi), (72, 6, s)]), 4)?;
            }
        }
        "C13" => {
            for (mo, d, ho, mi, dr) in [(2, 30, 1, 1, 0), (13, 1, 1, 1, 0), (0, 0, 24, 60, 0), (0, 0, 24, 60, 255), (6, 15, 12, 34, 0), (6, 15, 12, 35, 255), (1, 1, 0, 0, 250), (12, 31, 23, 59, 240), (2, 29, 0, 0, 0), (1, 1, 31, 1, 0), (1, 1, 1, 63, 0)] {
                go(ctx, &mk(5, &[(274, 4, mo), (278, 5, d), (283, 5, ho), (288, 6, mi), (294, 8, dr)]), 5)?;
            }
        }
        "C16" => {
            for i in 253..271 {
                go(ctx, &mk(21, &[(i, 1, 1)]), 21)?;
            }
            // "AB" with blanks up to the end of the name, then an extension
            let mut b = mk(21, &[]);
            for k in 0..20 {
                put(&mut b, 43 + 6 * k, 6, if k == 0 { 1 } else { 32 });
            }
            put(&mut b, 272, 6, 2);
            go(ctx, &b, 21)?;
        }
        "C17" => {
            let mut a = mk(24, &[(8, 30, 227006760)]);
            for k in 0..20 {
                put(&mut a, 40 + 6 * k, 6, 1 + k as u64);
            }
            put(&mut a, 160, 8, 0xFF);
            let b = mk(124, &[(8, 30, 227006760), (40, 8, 60), (66, 4, 5)]);
            let v = pair24(ctx, &h, &h, &a, &b, false)?;
            check_t24(&a, &b, false, &v)?;
            let v = pair24(ctx, &h, &h, &a, &b, true)?;
            check_t24(&a, &b, false, &v)?;
        }
        _ => {}
    }
    Ok(())
}

// ---- C19: text fields -------------------------------------------------------------------------------
pub struct Text;
/// (message kind, offset, characters)
const TEXTS: &[(u64, usize, usize)] = &[(5, 70, 7), (5, 112, 20), (5, 302, 20), (21, 43, 20), (24, 40, 20), (124, 48, 3), (124, 90, 7)];
impl Property for Text {
    fn id(&self) -> &'static str {
        "C19"
    }
    fn rule(&self) -> &'static str {
        "A case puts generated six-bit symbols into one text field of a type 5, 21 or 24 message (rest of the message random) and compares the decoded text with a table-driven reference. Sweeps: all 64 symbols at every position of every field, alone and inside a word, and every pair of (word length, terminator). Non-trivial: the field holds at least two different symbols."
    }
    fn plan(&self, th: bool) -> Plan {
        if th {
            Plan { random: 12_000_000, guided: 3_000_000, sweep_reps: 40 }
        } else {
            Plan { random: 900_000, guided: 200_000, sweep_reps: 6 }
        }
    }
    fn sweeps(&self, _th: bool) -> Vec<Vec<u64>> {
        let mut v = vec![];
        for (i, (_, _, n)) in TEXTS.iter().enumerate() {
            for pos in 0..*n as u64 {
                for sy in 0..64 {
                    for base in 0..3 {
                        v.push(vec![i as u64, 1, pos, sy, base]);
                    }
                }
            }
        }
        v
    }
    fn case(&self, src: &mut Src, ctx: &mut Ctx) -> R {
        now_default();
        let (ty, off, n) = TEXTS[src.usize(TEXTS.len())];
        let syms = if src.bool() {
            let (pos, sy, base) = (src.usize(n), src.below(64), src.below(3));
            let mut s: Vec<u64> = (0..n as u64).map(|i| [1 + i % 26, 0, 32][base as usize]).collect();
            s[pos] = sy;
            s
        } else {
            gen_text(src, n)
        };
        let mut b = gen_msg(src, ty);
        for (k, v) in syms.iter().enumerate() {
            put(&mut b, off + 6 * k, 6, *v);
        }
        if syms.iter().any(|x| *x != syms[0]) {
            ctx.nontrivial();
        }
        ctx.class(match (syms.contains(&0), syms.last() == Some(&32)) {
            (true, _) => "ended by @",
            (_, true) => "trailing blank",
            _ => "full length",
        });
        let want = text(&b, off, n);
        let h = gen_head(src, armour(&b).len());
        let opt = |w: &str| if w.is_empty() { None } else { Some(w.to_string()) };
        if ty == 24 || ty == 124 {
            let mut o = gen_msg(src, 148 - ty);
            let m = get(&b, 8, 30);
            put(&mut o, 8, 30, m);
            let (a, bb) = if ty == 24 { (&b, &o) } else { (&o, &b) };
            let first = src.bool();
            let v = pair24(ctx, &h, &h, a, bb, first)?;
            let got = match off {
                40 => v.name.clone(),
                48 => Some(v.equipment_vendor_id.clone().unwrap_or_default()).filter(|s| !s.is_empty()),
                _ => v.call_sign.clone(),
            };
            ensure!(got == opt(&want), "text at bit {} of type 24: got {:?}, transmitted {:?}", off, got, opt(&want));
            return Ok(());
        }
        let mut p = P::new();
        let r = deliver(&mut p, ctx, &h, &armour(&b))?;
        match (&r, off) {
            (Ok(ParsedSentence::VesselStaticData(v)), _) if ty == 5 => {
                let got = match off {
                    70 => v.call_sign.clone(),
                    112 => v.name.clone(),
                    _ => v.destination.clone(),
                };
                ensure!(got == opt(&want), "text at bit {} of type 5: got {:?}, transmitted {:?}", off, got, opt(&want));
                Ok(())
            }
            (Ok(ParsedSentence::AidToNavigationReport(v)), _) if ty == 21 => {
                ensure!(v.name == want, "name of type 21: got {:?}, transmitted {:?}", v.name, want);
                Ok(())
            }
            _ => Err(format!("type {} answered with {:?}", ty, r)),
        }
    }
}

// ---- C20: code tables ---------------------------------------------------------------------------------
pub struct Codes;
impl Property for Codes {
    fn id(&self) -> &'static str {
        "C20"
    }
    fn rule(&self) -> &'static str {
        "A case sets one code field (navigation status in types 1-3 and 27, positioning mode in types 1-3, position fix type in types 4, 5, 21, aid type, ship-and-cargo type in types 5 and 24) to a value in an otherwise generated message and compares the decoded enumeration with the documented table; ship and cargo types are also decoded through their public constructors. The sweep enumerates every value of every such field. Non-trivial: every case (each is one table entry in a generated context)."
    }
    fn plan(&self, th: bool) -> Plan {
        if th {
            Plan { random: 8_000_000, guided: 2_000_000, sweep_reps: 3000 }
        } else {
            Plan { random: 500_000, guided: 100_000, sweep_reps: 300 }
        }
    }
    fn sweeps(&self, _th: bool) -> Vec<Vec<u64>> {
        let mut v = vec![];
        for (i, c) in CODE_FIELDS.iter().enumerate() {
            for x in 0..1u64 << c.2 {
                v.push(vec![i as u64, x]);
            }
        }
        v
    }
    fn case(&self, src: &mut Src, ctx: &mut Ctx) -> R {
        now_default();
        let (ty, off, w) = CODE_FIELDS[src.usize(CODE_FIELDS.len())];
        let v = src.below(1 << w);
        let mut b = gen_msg(src, ty);
        put(&mut b, off, w, v);
        ctx.nontrivial();
        let h = gen_head(src, armour(&b).len());
        if w == 8 {
            let (s, c) = api(|| (ShipType::new(v as u8), CargoType::new(v as u8)));
            ensure!(s == ship_type(v), "ship type {}: got {:?}, documented {:?}", v, s, ship_type(v));
            ensure!(c == cargo_type(v), "cargo type {}: got {:?}, documented {:?}", v, c, cargo_type(v));
        }
        if ty == 124 {
            ctx.class("type 24");
            let mut a = gen_msg(src, 24);
            let m = get(&b, 8, 30);
            put(&mut a, 8, 30, m);
            let first = src.bool();
            let r = pair24(ctx, &h, &h, &a, &b, first)?;
            ensure!(r.ship_type == ship_type(v), "ship type {} in type 24: got {:?}, documented {:?}", v, r.ship_type, ship_type(v));
            ensure!(r.cargo_type == cargo_type(v), "cargo type {} in type 24: got {:?}, documented {:?}", v, r.cargo_type, cargo_type(v));
            return Ok(());
        }
        let mut p = P::new();
        let r = deliver(&mut p, ctx, &h, &armour(&b))?;
        match &r {
            Ok(ParsedSentence::VesselDynamicData(g)) if ty != 18 => {
                if w == 4 {
                    ctx.class("navigation status");
                    ensure!(g.nav_status == nav_status(v), "navigation status {} in type {}: got {:?}", v, ty, g.nav_status);
                } else {
                    ctx.class("positioning mode");
                    ensure!(g.positioning_system_meta == meta(v), "positioning mode of second {} in type {}: got {:?}", v, ty, g.positioning_system_meta);
                }
            }
            Ok(ParsedSentence::BaseStationReport(g)) => {
                ctx.class("position fix type");
                ensure!(g.position_fix_type == opt_epfd(v), "position fix type {} in type 4: got {:?}", v, g.position_fix_type);
            }
            Ok(ParsedSentence::VesselStaticData(g)) => {
                if w == 4 {
                    ctx.class("position fix type");
                    ensure!(g.position_fix_type == opt_epfd(v), "position fix type {} in type 5: got {:?}", v, g.position_fix_type);
                } else {
                    ctx.class("ship and cargo type");
                    ensure!(g.ship_type == ship_type(v), "ship type {} in type 5: got {:?}, documented {:?}", v, g.ship_type, ship_type(v));
                    ensure!(g.cargo_type == cargo_type(v), "cargo type {} in type 5: got {:?}, documented {:?}", v, g.cargo_type, cargo_type(v));
                }
            }
            Ok(ParsedSentence::AidToNavigationReport(g)) => {
                if w == 4 {
                    ctx.class("position fix type");
                    ensure!(g.position_fix_type == Some(epfd(v)), "position fix type {} in type 21: got {:?}", v, g.position_fix_type);
                } else {
                    ctx.class("aid type");
                    ensure!(g.aid_type == aid_type(v), "aid type {}: got {:?}", v, g.aid_type);
                }
            }
            _ => return Err(format!("type {} answered with {:?}", ty, r)),
        }
        Ok(())
    }
}
/// (message kind, offset, width) of every code field
const CODE_FIELDS: &[(u64, usize, usize)] = &[(1, 38, 4), (2, 38, 4), (3, 38, 4), (27, 40, 4), (1, 137, 6), (2, 137, 6), (3, 137, 6), (4, 134, 4), (5, 270, 4), (21, 249, 4), (21, 38, 5), (5, 232, 8), (124, 40, 8)];

// ---- C22: payload length, sentence kind, header --------------------------------------------------------
pub struct Shape;
pub fn strip_head(r: &Res, own: bool, st: Station) -> Res {
    use ParsedSentence::*;
    let mut r = r.clone();
    if let Ok(x) = r.as_mut() {
        match x {
            VesselDynamicData(v) => {
                v.own_vessel = own;
                v.station = st;
            }
            VesselStaticData(v) => v.own_vessel = own,
            BaseStationReport(v) => {
                v.own_vessel = own;
                v.station = st;
            }
            BinaryAddressedMessage(v) => {
                v.own_vessel = own;
                v.station = st;
            }
            StandardSarAircraftPositionReport(v) => {
                v.own_vessel = own;
                v.station = st;
            }
            UtcDateInquiry(v) => {
                v.own_vessel = own;
                v.station = st;
            }
            AidToNavigationReport(v) => {
                v.own_vessel = own;
                v.station = st;
            }
            _ => {}
        }
    }
    r
}
pub fn own_of(r: &Res) -> Option<bool> {
    use ParsedSentence::*;
    match r {
        Ok(VesselDynamicData(v)) => Some(v.own_vessel),
        Ok(VesselStaticData(v)) => Some(v.own_vessel),
        Ok(BaseStationReport(v)) => Some(v.own_vessel),
        Ok(BinaryAddressedMessage(v)) => Some(v.own_vessel),
        Ok(StandardSarAircraftPositionReport(v)) => Some(v.own_vessel),
        Ok(UtcDateInquiry(v)) => Some(v.own_vessel),
        Ok(AidToNavigationReport(v)) => Some(v.own_vessel),
        _ => None,
    }
}
/// All symbols a message kind can use.
fn full_len(ty: u64) -> usize {
    match ty {
        5 => 71,
        21 => 60,
        24 => 28,
        124 => 28,
        27 => 16,
        10 => 12,
        6 => 15,
        _ => 28,
    }
}
impl Property for Shape {
    fn id(&self) -> &'static str {
        "C22"
    }
    fn rule(&self) -> &'static str {
        "A case is one generated message of any supported type (type 24: one part together with its complete other part); its plain one-sentence VDM form with the payload filled up with zero symbols is compared with a variant: cut to any length, extended by up to 200 random symbols after the type's defined fields, sent as VDO, with another channel, message id (also not a number, signed, huge), fill-bit field (also missing or not a number), or split into two sentences at any position, in either order. Sweeps: every truncation length and every split position of every type, and all channels, ids 0-9 and fill counts. Non-trivial: the variant differs from the plain form in text and the answer is data."
    }
    fn plan(&self, th: bool) -> Plan {
        if th {
            Plan { random: 10_000_000, guided: 3_000_000, sweep_reps: 100 }
        } else {
            Plan { random: 700_000, guided: 200_000, sweep_reps: 16 }
        }
    }
    fn sweeps(&self, _th: bool) -> Vec<Vec<u64>> {
        let mut v = vec![];
        for k in 0..KINDS.len() as u64 {
            for len in 0..=72u64 {
                v.push(vec![k, 0, len]);
                v.push(vec![k, 3, len, 0]);
                v.push(vec![k, 3, len, 1]);
            }
            for x in 0..200 {
                v.push(vec![k, 1, x]);
            }
            for x in 0..64 {
                v.push(vec![k, 2, x]);
            }
        }
        v
    }
    fn case(&self, src: &mut Src, ctx: &mut Ctx) -> R {
        now_default();
        let ty = KINDS[src.usize(KINDS.len())];
        let what = src.below(5);
        let n = full_len(ty);
        let mut variant_len = None;
        let mut extra = 0;
        let mut h = Head::plain();
        let mut tweak = 0;
        match what {
            0 => variant_len = Some(src.usize(73).min(n)),
            1 => extra = 1 + src.usize(200),
            2 => tweak = 1 + src.below(64),
            3 => {
                let at = src.usize(73);
                h.split = Some(at);
                h.swap = src.bool();
                h.id = src.below(10).to_string();
            }
            _ => {
                // everything at once
                if src.bool() {
                    variant_len = Some(src.usize(n + 1));
                } else {
                    extra = src.usize(80);
                }
                h = gen_head(src, n);
                h.talker = "AI".into();
                if src.chance(1, 3) && h.split.is_none() {
                    tweak = 1 + src.below(64);
                }
            }
        }
        let mut b = gen_msg(src, ty);
        if ty == 21 && src.bool() {
            let k = src.usize(15);
            for (i, v) in gen_text(src, k).into_iter().enumerate() {
                put(&mut b, 272 + 6 * i, 6, v);
            }
        }
        b.resize(n * 6, false);
        // the payload whose meaning is compared
        let full = armour(&b);
        let cut = match variant_len {
            Some(l) => full[..l].to_string(),
            None => full.clone(),
        };
        let mut base = cut.clone();
        while base.len() < 80 {
            base.push('0');
        }
        let mut var = cut;
        if extra > 0 && variant_len.is_none() {
            for _ in 0..extra {
                var.push(sym_char(src.below(64)));
            }
            // type 24: 160..168 bits are spare in part A; symbols up to 28 belong to the message
            ctx.class("extended");
        }
        if variant_len.map_or(false, |l| l < n) {
            ctx.class("truncated");
        }
        // the header variant
        let mut sentences: Vec<String> = if tweak > 0 {
            ctx.class("header variant");
            let t = tweak - 1;
            let kind = if t & 1 == 1 { "VDO" } else { "VDM" };
            h.own = t & 1 == 1;
            let chan = ["A", "B", "1", "2", "", "C", "AB", "é"][(t >> 1 & 7) as usize];
            let id = src.pick(&["", "0", "1", "9", "10", "255", "256", "65536", "18446744073709551615", "18446744073709551616", "-1", "x"]);
            let fill = match t >> 4 & 3 {
                0 => ",0".to_string(),
                1 => format!(",{}", src.below(6)),
                2 => "".to_string(),
                _ => src.pick(&[",", ",x", ",0,1,2", ",7", ",255", ",256", ",-1"]).to_string(),
            };
            vec![format!("!AI{},1,1,{},{},{}{}", kind, id, chan, var, fill)]
        } else {
            h.sentences(&var)
        };
        if h.split.is_some() {
            ctx.class("split");
        }
        // deliver both
        let plain = Head::plain();
        let mut other = None;
        let ty_now = if base.len() >= 1 { get(&bits_of(&base), 0, 6) } else { 0 };
        let part = get(&bits_of(&base), 38, 2);
        if ty_now == 24 && part < 2 {
            // the other part completes the report
            let mut o = gen_msg(src, if part == 0 { 124 } else { 24 });
            let m = get(&bits_of(&base), 8, 30);
            put(&mut o, 8, 30, m);
            other = Some(armour(&o));
        }
        let mut p1 = P::new();
        let mut p2 = P::new();
        let mut r1 = p1.parse(ctx, &plain.sentences(&base)[0]);
        let last = sentences.pop().unwrap();
        for s in &sentences {
            let r = p2.parse(ctx, s);
            ensure!(is_incomplete(&r), "first of two sentences answered with {:?}", r);
        }
        let mut r2 = p2.parse(ctx, &last);
        if let Some(o) = other {
            ensure!(is_incomplete(&r1) && is_incomplete(&r2), "type 24 part answered with {:?} and {:?}", r1, r2);
            r1 = p1.parse(ctx, &plain.sentences(&o)[0]);
            let mut ho = Head::plain();
            ho.own = h.own;
            r2 = p2.parse(ctx, &ho.sentences(&o)[0]);
        }
        if let Some(o) = own_of(&r2) {
            ensure!(o == h.own, "own vessel mark is {} in a {}", o, h.kind());
        }
        if kind(&r2) == "data" && (what != 0 || variant_len.map_or(false, |l| l < n)) {
            ctx.nontrivial();
        }
        let a = strip_head(&r1, false, Station::Other);
        let b = strip_head(&r2, false, Station::Other);
        ensure!(same(&a, &b), "plain form decodes to {:?}, variant to {:?}", r1, r2);
        Ok(())
    }
}

// ---- C28: generic position access --------------------------------------------------------------------
pub struct Access;
fn bits_eq(a: Option<f64>, b: Option<f64>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(x), Some(y)) => x.to_bits() == y.to_bits(),
        _ => false,
    }
}
fn via<T: LatLon>(x: &T) -> (Option<f64>, Option<f64>) {
    fn dynamic(x: &dyn LatLon) -> (Option<f64>, Option<f64>) {
        (x.latitude(), x.longitude())
    }
    dynamic(x)
}
impl Property for Access {
    fn id(&self) -> &'static str {
        "C28"
    }
    fn rule(&self) -> &'static str {
        "A case decodes one generated AIS message (types 1-4, 6, 9, 18, 21, 27) or GGA, RMC or GLL sentence and compares the LatLon accessors with the result's latitude and longitude fields bit for bit (none for type 6, which carries no position). Sweeps: boundary and strided values of both coordinate fields of every type. Non-trivial: a result with at least one coordinate present."
    }
    fn plan(&self, th: bool) -> Plan {
        if th {
            Plan { random: 8_000_000, guided: 2_000_000, sweep_reps: 30 }
        } else {
            Plan { random: 500_000, guided: 100_000, sweep_reps: 3 }
        }
    }
    fn sweeps(&self, th: bool) -> Vec<Vec<u64>> {
        let mut v = vec![];
        for (i, ty) in ACCESS.iter().enumerate() {
            let (lay, _) = layout(*ty);
            for (k, fl) in lay.iter().enumerate() {
                if fl.name == "lat" || fl.name == "lon" {
                    for x in sweep_values(fl.w, fl.special, th) {
                        v.push(vec![i as u64, k as u64 + 1, x]);
                    }
                }
            }
        }
        v
    }
    fn case(&self, src: &mut Src, ctx: &mut Ctx) -> R {
        now_default();
        let i = src.usize(ACCESS.len() + 2);
        let r = if i < ACCESS.len() {
            let mut b = gen_msg(src, ACCESS[i]);
            if src.chance(1, 8) {
                // both coordinates on a special value at once
                for fl in layout(ACCESS[i]).0.iter().filter(|f| f.name == "lat" || f.name == "lon") {
                    put(&mut b, fl.off, fl.w, src.pick(&[0, 1, fl.special.first().copied().unwrap_or(0)]));
                }
            }
            once(ctx, &Head::plain().sentences(&armour(&b))[0])
        } else {
            let ty = src.pick(&[0usize, 1, 4]);
            let body = gen_gnss_body(src, ty, "GP");
            once(ctx, &body)
        };
        use ParsedSentence::*;
        let ((la, lo), (fla, flo)) = match &r {
            Ok(VesselDynamicData(g)) => (api(|| via(g)), (g.latitude, g.longitude)),
            Ok(BaseStationReport(g)) => (api(|| via(g)), (g.latitude, g.longitude)),
            Ok(StandardSarAircraftPositionReport(g)) => (api(|| via(g)), (g.latitude, g.longitude)),
            Ok(AidToNavigationReport(g)) => (api(|| via(g)), (g.latitude, g.longitude)),
            Ok(BinaryAddressedMessage(g)) => (api(|| via(g)), (None, None)),
            Ok(Gga(g)) => (api(|| via(g)), (g.latitude, g.longitude)),
            Ok(Rmc(g)) => (api(|| via(g)), (g.latitude, g.longitude)),
            Ok(Gll(g)) => (api(|| via(g)), (g.latitude, g.longitude)),
            _ => return Err(format!("answered with {:?}", r)),
        };
        if fla.is_some() || flo.is_some() {
            ctx.nontrivial();
        }
        ctx.class(match (fla.is_some(), flo.is_some()) {
            (true, true) => "both coordinates",
            (false, false) => "no coordinate",
            _ => "one coordinate",
        });
        ensure!(bits_eq(la, fla) && bits_eq(lo, flo), "access gives {:?}/{:?}, the fields are {:?}/{:?}", la, lo, fla, flo);
        Ok(())
    }
}
const ACCESS: &[u64] = &[1, 2, 3, 4, 6, 9, 18, 21, 27];

pub fn all() -> Vec<Box<dyn Property>> {
    vec![
        Box::new(Decode { id: "C10", types: &[1, 2, 3] }),
        Box::new(Decode { id: "C11", types: &[18] }),
        Box::new(Decode { id: "C12", types: &[4] }),
        Box::new(Decode { id: "C13", types: &[5] }),
        Box::new(Decode { id: "C14", types: &[6, 10] }),
        Box::new(Decode { id: "C15", types: &[9] }),
        Box::new(Decode { id: "C16", types: &[21] }),
        Box::new(Decode { id: "C17", types: &[24, 124] }),
        Box::new(Decode { id: "C18", types: &[27] }),
        Box::new(Text),
        Box::new(Codes),
        Box::new(Shape),
        Box::new(Access),
    ]
}
