mod ad;
mod compact;
mod contours;
mod detail;
mod filters;
mod gens;
mod history;
mod pipeline;
mod poly;
mod raster;
mod reference;
mod regions;
mod scenes;

fn main() {
    let mut p = vec![];
    p.extend(raster::props());
    p.extend(filters::props());
    p.extend(compact::props());
    p.extend(regions::props());
    p.extend(contours::props());
    p.extend(poly::props());
    p.extend(detail::props());
    p.extend(pipeline::props());
    p.extend(history::props());
    pbt::main_with(p)
}
