class Settings(object):
    pass


settings = Settings()
