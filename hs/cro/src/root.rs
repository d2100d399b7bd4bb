/// Harnesses in private modules
macro_rules! elsewhere {
    ($($n:ident)*) => {
        extern "C" { $(fn $n();)* }
        fn table() -> Vec<(&'static str, extern "C" fn())> {
            let mut table = crate::ui::verif::TABLE.to_vec();
            $(table.push((stringify!($n), unsafe { std::mem::transmute::<unsafe extern "C" fn(), extern "C" fn()>($n) }));)*
            table
        }
    };
}
elsewhere! {
    h_tui_1 h_tui_2 h_tui_3 h_tui_lists h_tui_reload
    h_table_columns h_table_order h_table_rows h_table_selected_1 h_table_selected_2 h_table_selected_3 h_table_footer h_table_names h_table_selected_0 h_table_percents
}
pub fn main() {
    symrt::main(&table());
}
