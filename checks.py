import vbuild
"""What each property's check builds and explores."""
T = ["threads"]
ALL = vbuild.MODULES
PLAT = ["ublas", "types", "threads", "platforms"]
OCEAN = ["ublas", "types", "netcdf", "ocean", "threads"]
CHECKS = {
    "C01": dict(level="model_checking", parts=[
        dict(harness="mc_pool.cc", flavor="mc", modules=T, time=45)]),
    "C02": dict(level="model_checking", parts=[
        dict(harness="mc_task.cc", flavor="mc", modules=T, time=45)]),
    "C04": dict(level="model_checking", parts=[
        dict(harness="mc_manager.cc", flavor="mc", modules=T, time=45),
        dict(harness="mc_notifier.cc", flavor="mc", modules=ALL, time=20)]),
    "C03": dict(level="model_checking", parts=[
        dict(harness="mc_singleton.cc", flavor="mc", modules=ALL, time=45)]),
    "C06": dict(level="model_checking", parts=[
        dict(harness="mc_ocean.cc", flavor="mc", modules=OCEAN, time=45)]),
    "C05": dict(level="model_checking", parts=[
        dict(harness="mc_platform.cc", flavor="mc", modules=PLAT, time=45)]),
    "C07": dict(level="model_checking", parts=[
        dict(harness="mc_sensor.cc", flavor="mc", modules=ALL, time=45)]),
    "C08": dict(level="model_checking", parts=[
        dict(harness="mc_pipeline.cc", flavor="mc", modules=ALL, time=60)]),
    "C09": dict(level="model_checking", parts=[
        dict(harness="mc_super.cc", flavor="mc", modules=ALL, time=60)]),
    "C10": dict(level="model_checking", parts=[
        dict(harness="mc_removal.cc", flavor="mc", modules=ALL, time=60)]),
    "C14": dict(level="exploration", parts=[
        dict(harness="s_seq.cc", flavor="seq", modules=["ublas", "types"], time=300)]),
    "C15": dict(level="exploration", parts=[
        dict(harness="s_grid.cc", flavor="seq", modules=["ublas", "types"], time=300)]),
    "C11": dict(level="model_checking", parts=[
        dict(harness="s_platform.cc", flavor="seq", modules=PLAT, time=300)]),
    "C12": dict(level="model_checking", parts=[
        dict(harness="s_pairs.cc", flavor="seq", modules=ALL, time=300)]),
    "C13": dict(level="model_checking", parts=[
        dict(harness="s_update.cc", flavor="seq", modules=ALL, time=300)]),
    "C16": dict(level="exploration", parts=[
        dict(harness="s_rays.cc", flavor="seq", modules=OCEAN + ["eigenrays"], time=300)]),
    "C17": dict(level="exploration", parts=[
        dict(harness="s_verbs.cc", flavor="seq", modules=["ublas", "types", "threads", "eigenverbs"], time=300)]),
    "C18": dict(level="exploration", parts=[
        dict(harness="s_biverbs.cc", flavor="seq", modules=ALL, time=300)]),
    "C19": dict(level="exploration", parts=[
        dict(harness="s_rvbts.cc", flavor="seq", modules=ALL, time=300)]),
    "C20": dict(level="exploration", parts=[
        dict(harness="s_coord.cc", flavor="seq", modules=["ublas", "types"], time=300)]),
    "C21": dict(level="exploration", parts=[
        dict(harness="s_beams.cc", flavor="seq", modules=["ublas", "types", "beampatterns"], time=300)]),
    "C22": dict(level="exploration", parts=[
        dict(harness="s_transmit.cc", flavor="seq", modules=["ublas", "types", "transmit"], time=300)]),
    "C23": dict(level="exploration", parts=[
        dict(harness="s_ocean.cc", flavor="seq", modules=OCEAN, time=300)]),
    "C24": dict(level="exploration", parts=[
        dict(harness="s_readers.cc", flavor="seq", modules=OCEAN, time=300)]),
    "C25": dict(level="exploration", parts=[
        dict(harness="s_waves.cc", flavor="seq", modules=OCEAN + ["eigenrays", "eigenverbs", "waveq3d"], time=300)]),
    "C26": dict(level="exploration", parts=[
        dict(harness="s_eigen.cc", flavor="seq", modules=OCEAN + ["eigenrays", "eigenverbs", "waveq3d"], time=300)]),
}
